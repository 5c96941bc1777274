// Iceberg manifests and row-level deletes.
//@@ keep: arrow_select
//@@ cut: arrow_cast arrow_string arrow_arith arrow_row arrow_ipc arrow_csv arrow_json parquet tokio datafusion_common_runtime serde_arrow datafusion_physical_plan datafusion_physical_expr datafusion_functions datafusion_functions_nested
//@@ cut: datafusion_functions_aggregate regex regex_automata regex_syntax datafusion_datasource datafusion_execution apache_avro object_store reqwest hyper sqlparser datafusion_sql datafusion_optimizer datafusion_catalog arrow_ord
use crate::rt::*;
use arrow::array::{Array, Int32Array, Int64Array, RecordBatch, StringArray};
use arrow::datatypes::{DataType, Field, Schema as ArrowSchema};
use ordered_float::OrderedFloat;
use sail_iceberg::operations::write::partition::split_record_batch_by_partition;
use sail_iceberg::physical_plan::delete_apply_exec::compute_delete_mask;
use sail_iceberg::spec::delete_index::{DeleteFileIndex, DeleteFileRef, PartitionKey};
use sail_iceberg::spec::manifest::_serde::{datum_to_bytes, ManifestEntryV2};
use sail_iceberg::spec::manifest::{ManifestEntry, ManifestStatus};
use sail_iceberg::spec::partition::unbound::{UnboundPartitionField, UnboundPartitionSpec};
use sail_iceberg::spec::transform::Transform;
use sail_iceberg::spec::types::values::{Datum, Literal, PrimitiveLiteral as P, RawLiteral};
use sail_iceberg::spec::types::{NestedField, PrimitiveType as T, StructType, Type};
use sail_iceberg::spec::{DataContentType, DataFile, DataFileFormat, Schema};
use std::collections::HashMap;
use std::sync::Arc;

fn file(content: DataContentType, path: &str, spec: i32, partition: Vec<Option<Literal>>) -> DataFile {
    DataFile {
        content, file_path: path.to_string(), file_format: DataFileFormat::Parquet, partition, record_count: 10, file_size_in_bytes: 1,
        column_sizes: HashMap::new(), value_counts: HashMap::new(), null_value_counts: HashMap::new(), nan_value_counts: HashMap::new(), lower_bounds: HashMap::new(), upper_bounds: HashMap::new(),
        block_size_in_bytes: None, key_metadata: None, split_offsets: vec![], equality_ids: vec![], sort_order_id: None, first_row_id: None, partition_spec_id: spec, referenced_data_file: None, content_offset: None, content_size_in_bytes: None,
    }
}
fn part(k: u64) -> Vec<Option<Literal>> {
    match k { 0 => vec![], 1 => vec![None], 2 => vec![Some(Literal::Primitive(P::Int(3)))], 3 => vec![Some(Literal::Primitive(P::Int(-3)))], _ => vec![Some(Literal::Primitive(P::String("a".to_string())))] }
}
struct Del { seq: i64, spec: u64, part: u64, eq: bool, path: u64 }
fn insert(idx: &mut DeleteFileIndex, name: &str, position: bool) -> Del {
    // two specifications: 0 without partitioning, 1 with one field
    let spec = any_fixed(0, 1);
    let d = Del { seq: any_i64(), spec, part: if spec == 0 { 0 } else { any_fixed(1, 3) }, eq: !position, path: if position { any_fixed(0, 2) } else { 0 } };
    let mut f = file(if position { DataContentType::PositionDeletes } else { DataContentType::EqualityDeletes }, name, d.spec as i32, part(d.part));
    f.referenced_data_file = match d.path { 0 => None, 1 => Some("f1".to_string()), _ => Some("f2".to_string()) };
    check(idx.insert(DeleteFileRef { data_file: f, data_sequence_number: d.seq, partition_spec_id: d.spec as i32, is_unpartitioned_spec: d.spec == 0 }).is_ok(), 1);
    d
}
fn deletes(kinds: [bool; 2]) {
    let mut idx = DeleteFileIndex::new();
    let ds = [insert(&mut idx, "d0", kinds[0]), insert(&mut idx, "d1", kinds[1])];
    let spec = any_fixed(0, 1);
    let p = if spec == 0 { 0 } else { any_fixed(1, 3) };
    let seq = any_i64();
    let m = idx.for_data_file(&file(DataContentType::Data, "f1", spec as i32, part(p)), seq);
    let mut total = 0;
    for (i, name) in ["d0", "d1"].iter().enumerate() {
        let d = &ds[i];
        let scope = (d.spec == spec) & (d.part == p);
        let want = if d.eq { (seq < d.seq) & (scope | (d.spec == 0)) } else { (seq <= d.seq) & (if d.path == 0 { scope } else { d.path == 1 }) };
        let n = |v: &Vec<DeleteFileRef>| v.iter().filter(|r| r.data_file.file_path == *name).count();
        check(n(&m.equality) == (d.eq & want) as usize, 2);
        check(n(&m.positional) == (!d.eq & want) as usize, 3);
        total += want as usize;
    }
    check(m.is_empty() == (total == 0), 4);
}
//@ bound: two equality deletes of any sequence numbers, with or without partitioning, three partition values one of them NULL; a data file likewise
//@ says: an equality delete applies to exactly the older data files of its partition, or of all partitions if written without partitioning
crate::h!(h_equality { deletes([false, false]) });
//@ bound: a position delete and an equality delete; position deletes for one of two files or for a partition
//@ says: a position delete applies to exactly the file it references, or the files of its partition, unless they are newer; each delete is listed once
crate::h!(h_position { deletes([true, false]) });

fn lit(kind: u64) -> Option<Literal> {
    Some(Literal::Primitive(match kind {
        0 => return None,
        1 => P::Int(any_i32()),
        2 => P::Long(any_i64()),
        3 => P::Boolean(any_bool()),
        4 => P::String(as_str(&ascii(any_fixed(0, 3) as usize)).to_string()),
        5 => P::Binary(bytes(any_fixed(0, 3) as usize)),
        6 => P::Int128(any_i128()),
        _ => P::Double(OrderedFloat(any_f64())),
    }))
}
fn same(a: &Option<Literal>, b: &Option<Literal>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(Literal::Primitive(P::Double(x))), Some(Literal::Primitive(P::Double(y)))) => x.0.to_bits() == y.0.to_bits(),
        (Some(Literal::Primitive(P::Float(x))), Some(Literal::Primitive(P::Float(y)))) => x.0.to_bits() == y.0.to_bits(),
        (Some(Literal::Primitive(x)), Some(Literal::Primitive(y))) => match (x, y) {
            (P::Int(x), P::Int(y)) => x == y, (P::Long(x), P::Long(y)) => x == y, (P::Boolean(x), P::Boolean(y)) => x == y, (P::Int128(x), P::Int128(y)) => x == y,
            (P::String(x), P::String(y)) => x == y, (P::Binary(x), P::Binary(y)) => x == y, _ => false,
        },
        _ => false,
    }
}
//@ bound: partition tuples of two values, each NULL or any value of seven types (strings and binaries up to 3 bytes)
//@ says: the keys of two partitions are equal exactly when their values are
crate::h!(h_key {
    let (k, l) = (any_fixed(0, 7), any_fixed(0, 7));
    let n = any_fixed(0, 2);
    let a = [lit(k), lit(l)];
    let b = match n { 0 => [lit(k), lit(l)], 1 => [lit(l), lit(k)], _ => [lit(0), lit(k)] };
    let (s, t) = (any_i32(), any_i32());
    let e = PartitionKey::new(s, &a).bytes == PartitionKey::new(t, &b).bytes;
    check(e == (same(&a[0], &b[0]) & same(&a[1], &b[1])), 1);
    reach(if e { 1 } else { 2 });
});

fn prim(k: u64) -> (T, P) {
    match k {
        0 => (T::Boolean, P::Boolean(any_bool())),
        1 => (T::Int, P::Int(any_i32())),
        2 => (T::Date, P::Int(any_i32())),
        3 => (T::Long, P::Long(any_i64())),
        4 => (T::Time, P::Long(any_i64())),
        5 => (T::Timestamp, P::Long(any_i64())),
        6 => (T::TimestamptzNs, P::Long(any_i64())),
        7 => (T::String, P::String(as_str(&ascii(any_fixed(0, 4) as usize)).to_string())),
        8 => (T::Float, P::Float(OrderedFloat(any_f32()))),
        _ => (T::Double, P::Double(OrderedFloat(any_f64()))),
    }
}
//@ bound: any value of ten types, strings up to 4 characters; binaries up to 4 bytes
//@ says: a column bound read from a manifest is the bound that was written
crate::h!(h_bound {
    let k = any_fixed(0, 10);
    let (t, v) = if k == 10 { (T::Binary, P::Binary(bytes(any_fixed(0, 4) as usize))) } else { prim(k) };
    let Ok(b) = datum_to_bytes(&Datum::new(t.clone(), v.clone())) else { check(false, 1); return };
    match t.literal_from_bytes(&b) { Ok(w) => check(same(&Some(Literal::Primitive(v)), &Some(Literal::Primitive(w))), 2), Err(_) => check(false, 3) }
});
fn through(v: Option<Literal>, w: Option<Literal>, t: T, u: T) -> Option<Vec<Option<Literal>>> {
    let ty = StructType::new(vec![Arc::new(NestedField::optional(1000, "a", Type::Primitive(t))), Arc::new(NestedField::optional(1001, "b", Type::Primitive(u)))]);
    let raw = RawLiteral::from_struct_values(&[v, w], &ty).ok()?;
    let text = serde_json::to_value(&raw).ok()?;
    let raw: RawLiteral = serde_json::from_value(text).ok()?;
    Some(raw.into_struct_values(&ty))
}
//@ bound: any value of ten types (finite numbers; strings up to 4 characters) or NULL, next to a value of another column
//@ says: partition values read back from a manifest with the type and value they were written with
crate::h!(h_partition_value {
    let k = any_fixed(0, 9);
    let (t, v) = prim(k);
    if let P::Double(x) = &v { assume(x.0.is_finite()); }
    if let P::Float(x) = &v { assume(x.0.is_finite()); }
    let v = if any_fixed(0, 3) == 0 { None } else { Some(Literal::Primitive(v)) };
    let w = Some(Literal::Primitive(P::Long(any_i64())));
    match through(v.clone(), w.clone(), t, T::Long) { Some(b) => check((b.len() == 2) & same(&b[0], &v) & same(&b[1], &w), 1), None => check(false, 2) }
});
//@ bound: a manifest entry with any status, snapshot, sequence numbers, counts, offsets and bounds of one INT column
//@ says: a manifest entry reads back as it was written
crate::h!(h_entry {
    let status = [ManifestStatus::Added, ManifestStatus::Existing, ManifestStatus::Deleted][any_fixed(0, 2) as usize].clone();
    let content = [DataContentType::Data, DataContentType::PositionDeletes, DataContentType::EqualityDeletes][any_fixed(0, 2) as usize];
    let some = fix(any_bool() as u64) == 1;
    let o = |x: i64| if some { Some(x) } else { None };
    let p = if some { Some(Literal::Primitive(P::Int(any_i32()))) } else { None };
    let mut f = file(content, "f", 5, vec![p]);
    f.record_count = any_in(0, i64::MAX) as u64;
    f.file_size_in_bytes = any_in(0, i64::MAX) as u64;
    f.file_format = [DataFileFormat::Parquet, DataFileFormat::Avro, DataFileFormat::Orc, DataFileFormat::Puffin][any_fixed(0, 3) as usize];
    if some {
        f.null_value_counts.insert(1, any_in(0, i64::MAX) as u64);
        f.value_counts.insert(1, any_in(0, i64::MAX) as u64);
        f.lower_bounds.insert(1, Datum::new(T::Int, P::Int(any_i32())));
        f.upper_bounds.insert(1, Datum::new(T::Int, P::Int(any_i32())));
        f.equality_ids = vec![any_i32()];
        f.split_offsets = vec![any_i64()];
        f.referenced_data_file = Some("g".to_string());
    }
    f.content_offset = o(any_i64());
    f.content_size_in_bytes = o(any_i64());
    f.first_row_id = o(any_i64());
    f.sort_order_id = if some { Some(any_i32()) } else { None };
    let e = ManifestEntry::new(status, o(any_i64()), o(any_i64()), o(any_i64()), f);
    let ty = StructType::new(vec![Arc::new(NestedField::optional(1000, "a", Type::Primitive(T::Int)))]);
    let schema = Schema::builder().with_fields([Arc::new(NestedField::optional(1, "x", Type::Primitive(T::Int)))]).build().unwrap();
    let Ok(s) = ManifestEntryV2::from_entry(e.clone(), &ty) else { check(false, 1); return };
    let Ok(r) = s.into_entry(5, &ty, Some(&schema)) else { check(false, 2); return };
    check(r == e, 3);
});
//@ bound: batches of 4 rows at any offset; up to 3 deleted positions anywhere
//@ says: exactly the rows at deleted positions of the file are dropped
crate::h!(h_mask {
    let b = RecordBatch::try_new(Arc::new(ArrowSchema::new(vec![Field::new("x", DataType::Int32, true)])), vec![Arc::new(Int32Array::from(vec![0; 4]))]).unwrap();
    let off = any_u64();
    assume(off < 1 << 62);
    let n = any_fixed(0, 3) as usize;
    let ps: Vec<u64> = (0..n).map(|_| any_u64()).collect();
    let mut i = 1;
    while i < n { assume(ps[i - 1] < ps[i]); i += 1; }
    let Ok(m) = compute_delete_mask(&b, off, &ps, &[]) else { check(false, 1); return };
    check(m.len() == 4, 2);
    for r in 0..4 { let mut gone = false; for p in &ps { gone |= *p == off + r as u64; } check(m.value(r) != gone, 3); }
});
//@ bound: three rows, each of one of 4 int values or NULL; identity, bucket, truncate and void partitioning, one or two partition fields
//@ says: writing puts every row exactly once into the partition its values belong to
crate::h!(h_split {
    let two = any_fixed(0, 1) == 1;
    let tr = [Transform::Identity, Transform::Truncate(10), Transform::Bucket(4), Transform::Void][any_fixed(0, 3) as usize];
    let xs: Vec<Option<i32>> = (0..3).map(|_| [None, Some(-1), Some(7), Some(12)][any_fixed(0, 3) as usize]).collect();
    let s = Arc::new(ArrowSchema::new(vec![Field::new("id", DataType::Int64, true), Field::new("x", DataType::Int32, true)]));
    let ids: Vec<i64> = (0..3).map(|_| any_i64()).collect();
    let b = RecordBatch::try_new(s, vec![Arc::new(Int64Array::from(ids.clone())), Arc::new(Int32Array::from(xs.clone()))]).unwrap();
    let schema = Schema::builder().with_fields([Arc::new(NestedField::optional(1, "id", Type::Primitive(T::Long))), Arc::new(NestedField::optional(2, "x", Type::Primitive(T::Int)))]).build().unwrap();
    let field = |n: &str, transform| UnboundPartitionField { source_id: 2, name: n.to_string(), transform };
    let spec = UnboundPartitionSpec { fields: if two { vec![field("p", tr), field("q", Transform::Identity)] } else { vec![field("p", tr)] } };
    let Ok(out) = split_record_batch_by_partition(&b, &spec, &schema) else { check(false, 1); return };
    let want = |x: Option<i32>| match (x, tr) {
        (None, _) | (_, Transform::Void) => None,
        (Some(v), Transform::Truncate(_)) => Some([-10, 0, 10][(v > 0) as usize + (v > 10) as usize]),
        (Some(v), Transform::Bucket(_)) => match sail_iceberg::utils::transform::apply_transform(tr, &Type::Primitive(T::Int), Some(Literal::Primitive(P::Int(v)))) { Some(Literal::Primitive(P::Int(b))) => Some(b), _ => None },
        (v, _) => v,
    };
    let int = |l: &Option<Literal>| match l { Some(Literal::Primitive(P::Int(v))) => Some(*v), _ => None };
    let mut seen = [0; 3];
    for g in &out {
        let c = g.record_batch.column(0).as_any().downcast_ref::<Int64Array>().unwrap();
        let x = g.record_batch.column(1).as_any().downcast_ref::<Int32Array>().unwrap();
        check((g.partition_values.len() == 1 + two as usize) & (x.len() >= 1), 2);
        let mut k = 0;
        for r in 0..x.len() {
            let v = if x.is_null(r) { None } else { Some(fix(x.value(r) as u32 as u64) as u32 as i32) };
            while k < 3 && (xs[k] != v || seen[k] == 1) { k += 1; }
            if k == 3 { check(false, 3); return; }
            seen[k] += 1;
            check(c.value(r) == ids[k], 4);
            check(int(&g.partition_values[0]) == want(v), 5);
            if two { check(int(&g.partition_values[1]) == v, 6); }
            k = 0;
        }
    }
    check(seen == [1; 3], 7);
});
//@ bound: up to three manifests, each of data or of deletes with any counts; every limit or none
//@ says: a LIMIT stops the listing of data files early only when no row in them can have been deleted
crate::h!(h_limit {
    use sail_iceberg::spec::manifest_list::*;
    let mut some = false;
    let entries: Vec<ManifestFile> = (0..any_fixed(0, 3)).map(|_| {
        let deletes = any_fixed(0, 1) == 1;
        some |= deletes;
        ManifestFile {
            manifest_path: "m".to_string(), manifest_length: any_i64(), partition_spec_id: 0, content: if deletes { ManifestContentType::Deletes } else { ManifestContentType::Data }, sequence_number: any_i64(), min_sequence_number: any_i64(),
            added_snapshot_id: any_i64(), added_files_count: Some(any_i32()), existing_files_count: Some(any_i32()), deleted_files_count: Some(any_i32()), added_rows_count: Some(any_i64()), existing_rows_count: Some(any_i64()),
            deleted_rows_count: Some(any_i64()), partitions: None, key_metadata: None, first_row_id: None,
        }
    }).collect();
    let limit = if any_fixed(0, 1) == 1 { Some(any_u64() as usize) } else { None };
    let got = sail_iceberg::datasource::provider::IcebergTableProvider::pruning_limit(&ManifestList { entries }, limit);
    match got { None => check(some | limit.is_none(), 80), Some(g) => { check(!some, 81); check(limit == Some(g), 82); } }
});
