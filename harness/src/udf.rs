//! Calling scalar functions the way the engine does, on arrays and scalars.
pub use std::sync::Arc;
pub use arrow::array::*;
pub use arrow::datatypes::*;
pub use arrow::buffer::{Buffer, NullBuffer, OffsetBuffer, ScalarBuffer};
pub use datafusion_common::config::ConfigOptions;
pub use datafusion_common::{Result, ScalarValue};
pub use datafusion_expr::{ColumnarValue, ScalarFunctionArgs, ScalarUDFImpl};
pub use crate::rt::*;

pub fn call<U: ScalarUDFImpl>(u: &U, args: Vec<ColumnarValue>, ret: DataType, rows: usize) -> Result<ColumnarValue> {
    let arg_fields = args.iter().map(|a| Arc::new(Field::new("a", a.data_type(), true))).collect();
    u.invoke_with_args(ScalarFunctionArgs {
        args,
        arg_fields,
        number_rows: rows,
        return_field: Arc::new(Field::new("r", ret, true)),
        config_options: Arc::new(ConfigOptions::default()),
    })
}
/// Run over whole columns, or (when `scalar` has bit i) with argument i as a scalar holding its row 0.
pub fn run<U: ScalarUDFImpl>(u: &U, cols: Vec<ArrayRef>, ret: DataType, scalar: u64) -> Result<ArrayRef> {
    let n = cols[0].len();
    let k = cols.len();
    let args: Vec<ColumnarValue> = cols.into_iter().enumerate().map(|(i, c)| {
        if scalar >> i & 1 == 1 { ColumnarValue::Scalar(ScalarValue::try_from_array(&c, 0).unwrap()) } else { ColumnarValue::Array(c) }
    }).collect();
    let all = scalar == (1u64 << k) - 1;
    match call(u, args, ret, if all { 1 } else { n })? {
        ColumnarValue::Array(a) => Ok(a),
        ColumnarValue::Scalar(s) => s.to_array_of_size(if all { 1 } else { n }),
    }
}
pub fn arr<A: Array + 'static>(a: A) -> ColumnarValue { ColumnarValue::Array(Arc::new(a)) }
pub fn aref<A: Array + 'static>(a: A) -> ArrayRef { Arc::new(a) }
pub fn i32s(v: Vec<i32>) -> ColumnarValue { arr(Int32Array::from(v)) }
pub fn i64s(v: Vec<i64>) -> ColumnarValue { arr(Int64Array::from(v)) }
/// A primitive column from optional values.
pub fn col<T: ArrowPrimitiveType>(v: &[Option<T::Native>]) -> ArrayRef {
    Arc::new(v.iter().copied().collect::<PrimitiveArray<T>>())
}
pub fn some<T>(v: Vec<T>) -> Vec<Option<T>> { v.into_iter().map(Some).collect() }
/// A column of strings given as bytes that are valid UTF-8.
pub fn strs(v: &[Option<&[u8]>]) -> ArrayRef {
    let mut b = StringBuilder::new();
    for s in v {
        match s { Some(s) => b.append_value(unsafe { std::str::from_utf8_unchecked(s) }), None => b.append_null() }
    }
    Arc::new(b.finish())
}
pub fn bins(v: &[Option<&[u8]>]) -> ArrayRef {
    let mut b = BinaryBuilder::new();
    for s in v { match s { Some(s) => b.append_value(s), None => b.append_null() } }
    Arc::new(b.finish())
}
pub fn i128_of<T: Into<i128>>(x: T) -> i128 { x.into() }
