// Where rows come from and go to between the operators of a query: ranges, row ids, partitions, limits.
//@@ keep: arrow_select
//@@ cut: arrow_cast arrow_string arrow_arith arrow_row arrow_ord arrow_ipc arrow_csv arrow_json parquet serde_arrow regex regex_automata regex_syntax reqwest hyper tonic prost sqlparser apache_avro object_store
//@@ cut: datafusion datafusion_sql datafusion_optimizer datafusion_catalog datafusion_datasource datafusion_execution !datafusion_execution::stream* datafusion_functions datafusion_functions_nested datafusion_functions_aggregate datafusion_common_runtime
//@@ cut: datafusion_physical_plan datafusion_physical_expr datafusion_proto datafusion_expr
use crate::rt::*;
use arrow::array::*;
use arrow::datatypes::*;
use sail_logical_plan::range::Range;
use sail_physical_plan::coalesce::coalesced_input_range;
use sail_physical_plan::merge_cardinality_check::MergeCardinalityCheckStream;
use sail_physical_plan::monotonic_id::MonotonicIdStream;
use sail_physical_plan::repartition::RowRoundRobinPartitioner;
use sail_physical_plan::streaming::limit::StreamLimitState;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// A stream of these batches.
struct In(SchemaRef, std::collections::VecDeque<RecordBatch>);
impl futures::Stream for In {
    type Item = datafusion_common::Result<RecordBatch>;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { Poll::Ready(self.1.pop_front().map(Ok)) }
}
impl datafusion::execution::RecordBatchStream for In { fn schema(&self) -> SchemaRef { self.0.clone() } }
fn poll<S: futures::Stream + Unpin>(s: &mut S) -> Option<S::Item> {
    let mut cx = Context::from_waker(Waker::noop());
    match Pin::new(s).poll_next(&mut cx) { Poll::Ready(x) => x, Poll::Pending => panic!("pending") }
}
fn ints(v: &[i64]) -> ArrayRef { Arc::new(Int64Array::from(v.to_vec())) }
fn schema(names: &[&str], t: DataType) -> SchemaRef { Arc::new(Schema::new(names.iter().map(|n| Field::new(*n, t.clone(), true)).collect::<Vec<_>>())) }
fn batch(v: &[i64]) -> RecordBatch { RecordBatch::try_new(schema(&["v"], DataType::Int64), vec![ints(v)]).unwrap() }
fn values(b: &RecordBatch, c: usize) -> Vec<i64> { b.column(c).as_any().downcast_ref::<Int64Array>().unwrap().values().to_vec() }

const STEPS: [i64; 7] = [1, 3, 1 << 40, i64::MAX, -1, -3, i64::MIN];
//@ bound: every start and end of at most three numbers apart by one of five steps up to the largest BIGINT and down to the smallest, in one to three partitions
//@ says: the partitions of a range hold, in order, exactly its numbers, each once, also near the largest and smallest BIGINT
crate::h!(h_range {
    let (start, end, step) = (any_i64(), any_i64(), [1, 1 << 40, i64::MAX, -1, i64::MIN][any_fixed(0, 4) as usize]);
    let inside = |v: i128| if step > 0 { v < end as i128 } else { v > end as i128 };
    let at = |k: i128| start as i128 + k * step as i128;
    assume(!inside(at(3)));
    let parts = any_fixed(1, 3) as usize;
    let r = Range { start, end, step };
    let mut k = 0i128;
    for i in 0..parts {
        for v in r.partition(i, parts) {
            check(inside(at(k)) && v as i128 == at(k), 1);
            reach(2);
            k += 1;
            if k > 3 { return; }
        }
    }
    check(!inside(at(k)), 3);
});
//@ bound: every start, end and number of a range with one of six steps, in two or three partitions
//@ says: the number is in exactly one partition, at the place the ones before it leave
//@ time: 200
//@ qtime: 60
crate::h!(h_range_large {
    let (start, end, k) = (any_i64(), any_i64(), any_u64());
    let step = STEPS[[0, 1, 2, 4, 5, 6][any_fixed(0, 5) as usize]];
    let v = start as i128 + k as i128 * step as i128;
    assume(if step > 0 { v < end as i128 } else { v > end as i128 });
    let parts = any_fixed(2, 3) as usize;
    let r = Range { start, end, step };
    let mut n = 0;
    for i in 0..parts {
        let p = r.partition(i, parts);
        let (a, b) = (p.start as i128, p.end as i128);
        let has = if step > 0 { (a <= v) & (v < b) } else { (a >= v) & (v > b) };
        n += has as usize;
        if has { check((v - a) % step as i128 == 0, 1); }
    }
    check(n == 1, 2);
});
//@ bound: every partition below 2^30 and every number of rows read before, two batches of up to three rows, the new column first or last
//@ says: a row's number is its partition times 2^33 plus the rows before it, so that no two are equal; there is an error before they would be
crate::h!(h_monotonic {
    let (p, before) = (any_u64(), any_u64());
    assume(p < 1 << 30 && before <= 1 << 33);
    let at = any_fixed(0, 1) as usize;
    let names = if at == 0 { ["id", "v"] } else { ["v", "id"] };
    let sizes = [any_fixed(0, 3) as usize, any_fixed(0, 3) as usize];
    let data: Vec<Vec<i64>> = sizes.iter().map(|n| (0..*n).map(|_| any_i64()).collect()).collect();
    let input = In(schema(&["v"], DataType::Int64), data.iter().map(|d| batch(d)).collect());
    let mut s = MonotonicIdStream::new(Box::pin(input), schema(&names, DataType::Int64), "id".to_string(), p as usize).unwrap();
    s.offset = before;
    let mut row = before;
    for d in &data {
        match poll(&mut s).unwrap() {
            Ok(b) => {
                check(row + d.len() as u64 <= 1 << 33, 1);
                check(values(&b, 1 - at) == *d, 2);
                let ids = values(&b, at);
                check(ids.len() == d.len(), 3);
                for (i, id) in ids.iter().enumerate() { check(*id as u64 == (p << 33) + row + i as u64, 4); }
                row += d.len() as u64;
            }
            Err(_) => { check(row + d.len() as u64 > 1 << 33, 5); reach(6); return; }
        }
    }
    check(poll(&mut s).is_none(), 7);
});
//@ bound: two batches of up to three rows of any values, one to four partitions out, the first to third of one to three in
//@ says: each row goes to one partition, whole and in order, and the partitions get equally many rows, give or take one
crate::h!(h_round_robin {
    let n = any_fixed(1, 4) as usize;
    let m = any_fixed(1, 3) as usize;
    let i = any_fixed(0, m as u64 - 1) as usize;
    let mut r = RowRoundRobinPartitioner::new(n, i, m).unwrap();
    let data: Vec<Vec<i64>> = (0..2).map(|_| (0..any_fixed(0, 3)).map(|_| any_i64()).collect()).collect();
    let mut out: Vec<Vec<i64>> = vec![vec![]; n];
    for d in &data { r.partition(batch(d), |p, b| { out[p].extend(values(&b, 0)); Ok(()) }).unwrap(); }
    let all: Vec<i64> = data.concat();
    let (lo, hi) = (out.iter().map(|o| o.len()).min().unwrap(), out.iter().map(|o| o.len()).max().unwrap());
    check(hi - lo <= 1, 1);
    check(out.iter().map(|o| o.len()).sum::<usize>() == all.len(), 2);
    // row j goes to the partition after that of row j - 1
    let ok = (0..n).any(|first| (0..n).all(|p| { let mine: Vec<i64> = all.iter().enumerate().filter(|(j, _)| (first + j) % n == p).map(|x| *x.1).collect(); mine.len() == out[p].len() && mine.iter().zip(&out[p]).all(|(a, b)| a == b) }));
    check(ok, 3);
});
//@ bound: up to 2^40 partitions read as one to five, or up to as many as there are
//@ says: each partition is read by exactly one of the coalesced ones, in order, and each of those reads some
crate::h!(h_coalesce {
    let out = any_fixed(1, 5) as usize;
    let n = any_in(out as i64, 1 << 40) as usize;
    let mut at = 0;
    for i in 0..out {
        let (a, b) = coalesced_input_range(i, n, out);
        check(a == at && b > a, 1);
        at = b;
    }
    check(at == n, 2);
});
//@ bound: two batches of up to three rows, each inserted or retracted, of any values; every number of rows to skip and to take, or no limit
//@ says: a limit on a stream passes exactly the rows after the skipped ones, up to the number to take, with their retractions
crate::h!(h_limit {
    let data: Vec<Vec<i64>> = (0..2).map(|_| (0..any_fixed(0, 3)).map(|_| any_i64()).collect()).collect();
    let (skip, fetch) = (any_u64() as usize, if any_fixed(0, 1) == 1 { Some(any_u64() as usize) } else { None });
    assume(fetch.is_none_or(|f| f < 1 << 60) && skip < 1 << 60);
    let mut s = StreamLimitState { stream: None, skip, fetch };
    let mut got: Vec<(i64, bool)> = vec![];
    let mut all: Vec<(i64, bool)> = vec![];
    for d in &data {
        let flags: Vec<bool> = d.iter().map(|_| any_bool()).collect();
        all.extend(d.iter().copied().zip(flags.iter().copied()));
        if let Some((b, r)) = s.skip_batch_if_needed(batch(d), BooleanArray::from(flags)) {
            match s.fetch_batch(b, r) {
                Some((b, r)) => { check(r.len() == b.num_rows(), 1); for (i, v) in values(&b, 0).into_iter().enumerate() { got.push((v, r.value(i))); } }
                None => break,
            }
        }
    }
    let want: Vec<(i64, bool)> = all.into_iter().enumerate().filter(|(i, _)| *i >= skip && fetch.is_none_or(|f| *i - skip < f)).map(|x| x.1).collect();
    check(got.len() == want.len(), 2);
    check(got.iter().zip(&want).all(|(a, b)| a.0 == b.0 && a.1 == b.1), 3);
});
//@ bound: batches of one row and two; row ids (numbers or text) of three values or NULL, present in target and source or not or NULL
//@ says: MERGE fails exactly when two source rows match the same target row, in one batch or in different ones; other rows pass unchanged
crate::h!(h_cardinality {
    let text = any_fixed(0, 1) == 1;
    let t = if text { DataType::Utf8 } else { DataType::Int64 };
    let schema = Arc::new(Schema::new(vec![Field::new("id", t, true), Field::new("t", DataType::Boolean, true), Field::new("s", DataType::Boolean, true)]));
    let mut seen: Vec<i64> = vec![];
    let mut batches = vec![];
    let mut fails = vec![];
    for n in 1..3 {
        let (mut ids, mut ts, mut ss, mut bad) = (vec![], vec![], vec![], false);
        for _ in 0..n {
            let id = match any_fixed(0, 2) { 0 => None, n => Some(n as i64) };
            let (a, b) = match any_fixed(0, 3) { 0 => (Some(true), Some(false)), 1 => (Some(false), Some(true)), 2 => (Some(true), None), _ => (Some(true), Some(true)) };
            if let Some(id) = id { if a == Some(true) && b == Some(true) { if seen.contains(&id) { bad = true; } seen.push(id); } }
            ids.push(id); ts.push(a); ss.push(b);
        }
        let idc: ArrayRef = if text { Arc::new(StringArray::from(ids.iter().map(|i| i.map(|i| if i == 1 { "a" } else { "b" })).collect::<Vec<_>>())) } else { Arc::new(Int64Array::from(ids)) };
        batches.push(RecordBatch::try_new(schema.clone(), vec![idc, Arc::new(BooleanArray::from(ts)), Arc::new(BooleanArray::from(ss))]).unwrap());
        fails.push(bad);
    }
    let mut s = MergeCardinalityCheckStream { schema: schema.clone(), input: Box::pin(In(schema, batches.into_iter().collect())), row_id_idx: 0, target_present_idx: 1, source_present_idx: 2, seen: Default::default() };
    for (n, f) in fails.into_iter().enumerate() {
        let got = poll(&mut s).unwrap();
        check(got.is_err() == f, 1);
        if f { reach(2); return; }
        check(got.unwrap().num_rows() == n + 1, 3);
    }
});
