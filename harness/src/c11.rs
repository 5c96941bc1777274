// Iceberg scan planning: a data file or manifest that holds a matching row is never skipped.
//@@ keep: arrow_ord
//@@ cut: arrow_cast !arrow_cast::cast::cast_with_options !<arrow_cast::cast::CastOptions* !arrow_cast::cast::cast !arrow_cast::display::FormatOptions* !<arrow_cast::display::FormatOptions*
//@@ cut: parquet tokio datafusion_common_runtime serde_arrow arrow_ipc arrow_csv arrow_json datafusion_physical_plan datafusion_functions datafusion_functions_nested datafusion_functions_aggregate
//@@ cut: regex regex_automata regex_syntax arrow_string arrow_row datafusion_datasource datafusion_execution apache_avro object_store reqwest hyper sqlparser datafusion_sql datafusion_optimizer datafusion_catalog
//@@ cut: arrow_arith::numeric* arrow_arith::aggregate* arrow_arith::temporal* arrow_select::dictionary* arrow_select::take* arrow_select::interleave* arrow_select::zip* arrow_select::merge* arrow_select::coalesce* arrow_select::concat* arrow_select::filter*
//@@ cut: arrow_ord::sort* arrow_ord::rank* arrow_ord::partition* arrow_ord::ord* datafusion_physical_expr::expressions::case* datafusion_physical_expr::expressions::like* datafusion_common::scalar::ScalarValue::try_from_string
use crate::rt::*;
use arrow::datatypes::{DataType, Field, Schema as ArrowSchema, TimeUnit};
use datafusion::catalog::Session;
use datafusion::common::{DFSchema, ScalarValue};
use datafusion::logical_expr::execution_props::ExecutionProps;
use datafusion::logical_expr::{col, lit, BinaryExpr, Expr, Operator, AggregateUDF, HigherOrderUDF, LogicalPlan, ScalarUDF, WindowUDF};
use datafusion::logical_expr::registry::ExtensionTypeRegistryRef;
use datafusion::physical_plan::{ExecutionPlan, PhysicalExpr};
use datafusion::prelude::SessionConfig;
use sail_iceberg::datasource::pruning::*;
use sail_iceberg::spec::partition::PartitionSpec;
use sail_iceberg::spec::manifest_list::{FieldSummary, ManifestFile, ManifestList};
use sail_iceberg::spec::transform::Transform;
use sail_iceberg::spec::types::values::{Datum, Literal, PrimitiveLiteral as P};
use sail_iceberg::spec::types::{NestedField, PrimitiveType as T, Type};
use sail_iceberg::spec::{DataContentType, DataFile, DataFileFormat, ManifestContentType, Schema};
use std::any::Any;
use std::collections::HashMap;
use std::sync::Arc;

/// A session that can do the one thing pruning asks of it.
struct Sess(ExecutionProps);
#[async_trait::async_trait]
impl Session for Sess {
    fn session_id(&self) -> &str { "s" }
    fn config(&self) -> &SessionConfig { unimplemented!() }
    async fn create_physical_plan(&self, _: &LogicalPlan) -> datafusion::common::Result<Arc<dyn ExecutionPlan>> { unimplemented!() }
    fn create_physical_expr(&self, expr: Expr, s: &DFSchema) -> datafusion::common::Result<Arc<dyn PhysicalExpr>> { datafusion::physical_expr::create_physical_expr(&expr, s, &self.0) }
    fn scalar_functions(&self) -> &HashMap<String, Arc<ScalarUDF>> { unimplemented!() }
    fn higher_order_functions(&self) -> &HashMap<String, Arc<HigherOrderUDF>> { unimplemented!() }
    fn aggregate_functions(&self) -> &HashMap<String, Arc<AggregateUDF>> { unimplemented!() }
    fn window_functions(&self) -> &HashMap<String, Arc<WindowUDF>> { unimplemented!() }
    fn extension_type_registry(&self) -> &ExtensionTypeRegistryRef { unimplemented!() }
    fn runtime_env(&self) -> &Arc<datafusion::execution::runtime_env::RuntimeEnv> { unimplemented!() }
    fn execution_props(&self) -> &ExecutionProps { &self.0 }
    fn as_any(&self) -> &dyn Any { self }
    fn table_options(&self) -> &datafusion::common::config::TableOptions { unimplemented!() }
    fn table_options_mut(&mut self) -> &mut datafusion::common::config::TableOptions { unimplemented!() }
    fn task_ctx(&self) -> Arc<datafusion::execution::TaskContext> { unimplemented!() }
}

fn schema(t: T) -> Schema { Schema::builder().with_fields([Arc::new(NestedField::optional(1, "x", Type::Primitive(t))), Arc::new(NestedField::optional(2, "y", Type::Primitive(T::Int)))]).build().unwrap() }
fn file(partition: Vec<Option<Literal>>) -> DataFile {
    DataFile {
        content: DataContentType::Data, file_path: "f".to_string(), file_format: DataFileFormat::Parquet, partition, record_count: 10, file_size_in_bytes: 1,
        column_sizes: HashMap::new(), value_counts: HashMap::new(), null_value_counts: HashMap::new(), nan_value_counts: HashMap::new(), lower_bounds: HashMap::new(), upper_bounds: HashMap::new(),
        block_size_in_bytes: None, key_metadata: None, split_offsets: vec![], equality_ids: vec![], sort_order_id: None, first_row_id: None, partition_spec_id: 0, referenced_data_file: None, content_offset: None, content_size_in_bytes: None,
    }
}
const OPS: [Operator; 5] = [Operator::Eq, Operator::Lt, Operator::LtEq, Operator::Gt, Operator::GtEq];
fn holds(op: usize, a: i64, b: i64) -> bool { match op { 0 => a == b, 1 => a < b, 2 => a <= b, 3 => a > b, _ => a >= b } }
fn binary(l: Expr, op: usize, r: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr::new(Box::new(l), OPS[op], Box::new(r))) }
/// the comparison x op c, written either way round
fn cmp(op: usize, c: Expr, swap: bool) -> Expr { if swap { binary(c, [0, 3, 4, 1, 2][op], col("x")) } else { binary(col("x"), op, c) } }
const C: [i32; 4] = [0, -7, 42, i32::MAX];

//@ bound: int column, every range and every row value in it, five comparison operators and IN over four literals; bounds or null count present or not
//@ says: a file whose statistics admit a matching row is kept
//@ time: 200
crate::h!(h_stats {
    let (lo, hi, v) = (any_i32(), any_i32(), any_i32());
    assume((lo <= v) & (v <= hi));
    let c = C[any_fixed(0, 3) as usize];
    let op = any_fixed(0, 5) as usize;
    let have = any_fixed(0, 3);
    let mut f = file(vec![]);
    if have & 1 == 1 { f.lower_bounds.insert(1, Datum::new(T::Int, P::Int(lo))); f.upper_bounds.insert(1, Datum::new(T::Int, P::Int(hi))); }
    if have & 2 == 2 { let n = any_in(0, 9) as u64; f.null_value_counts.insert(1, n); }
    let (e, m) = if op < 5 { (cmp(op, lit(c), fix(any_bool() as u64) == 1), holds(op, v as i64, c as i64)) }
        else { let d = c.wrapping_add(3); (col("x").in_list(vec![lit(c), lit(d)], false), (v == c) | (v == d)) };
    let a = Arc::new(ArrowSchema::new(vec![Field::new("x", DataType::Int32, true), Field::new("y", DataType::Int32, true)]));
    let r = prune_files(&Sess(ExecutionProps::new()), &[e], None, a, vec![f], &schema(T::Int));
    let Ok((kept, _)) = r else { check(false, 1); return };
    check(!m | !kept.is_empty(), 2);
    reach(if kept.is_empty() { 1 } else { 2 });
});

fn i32_of(p: &P) -> i64 { match p { P::Int(v) => *v as i64, P::Long(v) => *v, _ => 0 } }
fn le(p: &P) -> Vec<u8> { match p { P::Int(v) => v.to_le_bytes().to_vec(), P::Long(v) => v.to_le_bytes().to_vec(), P::String(s) => s.as_bytes().to_vec(), _ => vec![] } }
/// Is a file holding row x = v (y = 7) kept, directly and through its manifest?
fn kept(t: T, tr: Transform, v: P, around: bool, filters: &[Expr]) -> (bool, bool) {
    let s = schema(t.clone());
    let spec = PartitionSpec::builder().with_spec_id(3).add_field(2, "y", Transform::Identity).add_field(1, "px", tr).build();
    let p = sail_iceberg::utils::transform::apply_transform(tr, &Type::Primitive(t), Some(Literal::Primitive(v)));
    let Some(Literal::Primitive(pp)) = p.clone() else { check(false, 90); return (true, true) };
    let f = file(vec![Some(Literal::Primitive(P::Int(7))), p]);
    let direct = !prune_data_files_by_partition_values(vec![f], &s, &spec, filters).is_empty();
    // the manifest's summary covers the value, alone or among others
    let (lo, hi) = match (&pp, around) {
        (P::Int(x), true) => { let (a, b) = (any_i32(), any_i32()); assume((a <= *x) & (*x <= b)); (le(&P::Int(a)), le(&P::Int(b))) }
        (P::Long(x), true) => { let (a, b) = (any_i64(), any_i64()); assume((a <= *x) & (*x <= b)); (le(&P::Long(a)), le(&P::Long(b))) }
        _ => (le(&pp), le(&pp)),
    };
    let sum = |lo, hi| FieldSummary { contains_null: false, contains_nan: None, lower_bound_bytes: Some(lo), upper_bound_bytes: Some(hi) };
    let seven = le(&P::Int(7));
    let m = ManifestFile { manifest_path: "m".to_string(), manifest_length: 1, partition_spec_id: 3, content: ManifestContentType::Data, sequence_number: 1, min_sequence_number: 1, added_snapshot_id: 1, added_files_count: None, existing_files_count: None, deleted_files_count: None, added_rows_count: None, existing_rows_count: None, deleted_rows_count: None, partitions: Some(vec![sum(seven.clone(), seven), sum(lo, hi)]), key_metadata: None, first_row_id: None };
    let ml = ManifestList::new(vec![m]);
    let specs: HashMap<i32, PartitionSpec> = [(3, spec)].into_iter().collect();
    (direct, !prune_manifests_by_partition_summaries(&ml, &s, &specs, filters).is_empty())
}
fn judge(m: bool, k: (bool, bool)) { check(!m | k.0, 1); check(!m | k.1, 2); if !k.0 { reach(1); } if !k.1 { reach(2); } }

//@ bound: int column with identity, bucket and truncate partitioning, every value and every literal, five comparisons either way round; manifest ranges around the value
//@ says: partition pruning keeps the file, and its manifest, whenever the row matches
crate::h!(h_part_int {
    let tr = [Transform::Identity, Transform::Bucket(16), Transform::Truncate(10)][any_fixed(0, 2) as usize];
    let (v, c) = (any_i32(), any_i32());
    if tr == Transform::Truncate(10) { assume((v > i32::MIN + 20) & (c > i32::MIN + 20)); }
    let op = any_fixed(0, 4) as usize;
    let e = cmp(op, lit(c), fix(any_bool() as u64) == 1);
    judge(holds(op, v as i64, c as i64), kept(T::Int, tr, P::Int(v), true, &[e]));
});
//@ bound: as h_part_int for conjunctions of two comparisons, given as one filter or two, possibly with a comparison on the other partition column
crate::h!(h_part_and {
    let tr = [Transform::Identity, Transform::Truncate(10)][any_fixed(0, 1) as usize];
    let (v, c, d) = (any_i32(), any_i32(), any_i32());
    assume((v > i32::MIN + 20) & (c > i32::MIN + 20) & (d > i32::MIN + 20));
    let (o1, o2) = (any_fixed(0, 4) as usize, any_fixed(1, 4) as usize);
    let (a, b) = (cmp(o1, lit(c), false), cmp(o2, lit(d), true));
    let m = holds(o1, v as i64, c as i64) & holds(o2, v as i64, d as i64);
    let f = match any_fixed(0, 2) { 0 => vec![a, b], 1 => vec![a.and(b)], _ => vec![a.and(b), binary(col("y"), 4, lit(7))] };
    judge(m, kept(T::Int, tr, P::Int(v), false, &f));
});
//@ bound: long column with identity, bucket, truncate; timestamp column with identity, bucket, hour, day; date column with identity, bucket, day; every value within 290000 years and every literal, five comparisons
crate::h!(h_part_i64 {
    let (t, tr) = [(T::Long, Transform::Identity), (T::Long, Transform::Bucket(16)), (T::Long, Transform::Truncate(10)), (T::Timestamp, Transform::Identity), (T::Timestamp, Transform::Bucket(5)), (T::Timestamptz, Transform::Hour), (T::Timestamp, Transform::Day),
        (T::Date, Transform::Identity), (T::Date, Transform::Bucket(16)), (T::Date, Transform::Day)][any_fixed(0, 9) as usize].clone();
    let op = any_fixed(0, 4) as usize;
    let date = matches!(t, T::Date);
    let (v, c) = if date { (any_i32() as i64, any_i32() as i64) } else { (any_i64(), any_i64()) };
    if tr == Transform::Hour { const L: i64 = 7_000_000_000_000_000_000; assume((v < L) & (v > -L) & (c < L) & (c > -L)); }
    if tr == Transform::Truncate(10) { assume((v > i64::MIN + 20) & (c > i64::MIN + 20)); }
    let l = match t { T::Long => lit(c), T::Timestamp => lit(ScalarValue::TimestampMicrosecond(Some(c), None)), T::Timestamptz => lit(ScalarValue::TimestampMicrosecond(Some(c), Some("UTC".into()))), _ => lit(ScalarValue::Date32(Some(c as i32))) };
    let p = if date { P::Int(v as i32) } else { P::Long(v) };
    judge(holds(op, v, c), kept(t, tr, p, false, &[cmp(op, l, false)]));
});
//@ bound: int column with identity, bucket and truncate partitioning, every value; IN over two or three literals out of eight
//@ says: IN lists likewise
crate::h!(h_part_in {
    let tr = [Transform::Identity, Transform::Bucket(16), Transform::Truncate(10)][any_fixed(0, 2) as usize];
    let v = any_i32();
    assume(v > i32::MIN + 20);
    let (c, d) = (C[any_fixed(0, 3) as usize], C[any_fixed(0, 3) as usize] / 2);
    let mut l = vec![lit(c), lit(d)];
    let mut m = (v == c) | (v == d);
    if fix(any_bool() as u64) == 1 { l.push(lit(99)); m |= v == 99; }
    judge(m, kept(T::Int, tr, P::Int(v), true, &[col("x").in_list(l, false)]));
});
//@ bound: string column with identity, bucket and truncate[2] partitioning, every ASCII value and literal up to 3 characters, five comparisons
crate::h!(h_part_str {
    let tr = [Transform::Identity, Transform::Bucket(16), Transform::Truncate(2)][any_fixed(0, 2) as usize];
    let c = ascii(any_fixed(0, 3) as usize);
    let op = any_fixed(0, 4) as usize;
    // equality can only hold for the literal itself
    let v = if op == 0 && fix(any_bool() as u64) == 1 { c.clone() } else { assume(tr != Transform::Bucket(16)); ascii(any_fixed(0, 3) as usize) };
    let mut o = 0i64; // sign of v - c
    let mut i = 3;
    while i > 0 { i -= 1; let (a, b) = (if i < v.len() { v[i] as i64 } else { -1 }, if i < c.len() { c[i] as i64 } else { -1 }); o = if a < b { -1 } else if a > b { 1 } else { o }; }
    judge(holds(op, o, 0), kept(T::String, tr, P::String(as_str(&v).to_string()), false, &[cmp(op, lit(as_str(&c)), false)]));
});
//@ bound: int column compared as bigint, date column compared as timestamp, timestamp column compared as date; identity, bucket and day partitioning; every value and literal, five comparisons
//@ says: comparisons on a cast of the column likewise
crate::h!(h_part_cast {
    let tr = [Transform::Identity, Transform::Bucket(16), Transform::Day][any_fixed(0, 2) as usize];
    let op = any_fixed(0, 4) as usize;
    let cast = |t: DataType| Expr::Cast(datafusion::logical_expr::Cast::new(Box::new(col("x")), t));
    const DAY: i64 = 86_400_000_000;
    match any_fixed(0, 2) {
        0 => {
            assume(tr != Transform::Day);
            let (v, c) = (any_i32(), any_i64());
            judge(holds(op, v as i64, c), kept(T::Int, tr, P::Int(v), false, &[binary(cast(DataType::Int64), op, lit(c))]));
        }
        1 => {
            let (v, c) = (any_i32(), any_i64());
            assume((v < 100_000_000) & (v > -100_000_000));
            let e = binary(cast(DataType::Timestamp(TimeUnit::Microsecond, None)), op, lit(ScalarValue::TimestampMicrosecond(Some(c), None)));
            judge(holds(op, v as i64 * DAY, c), kept(T::Date, tr, P::Int(v), false, &[e]));
        }
        _ => {
            let (v, c) = (any_i64(), any_i32());
            let e = binary(cast(DataType::Date32), op, lit(ScalarValue::Date32(Some(c))));
            judge(holds(op, v.div_euclid(DAY), c as i64), kept(T::Timestamp, tr, P::Long(v), false, &[e]));
        }
    }
});
