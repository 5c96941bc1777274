//! An object store in memory whose content the harness decides, and a single-threaded executor.
use std::sync::{Arc, Mutex};
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use bytes::Bytes;
use futures::stream::{self, BoxStream, StreamExt};
pub use object_store::path::Path;
pub use object_store::*;

#[derive(Debug)]
pub struct MemStore { pub objs: Mutex<Vec<(Path, Bytes, i64)>>, pub log: Mutex<Vec<String>> }
impl std::fmt::Display for MemStore { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("mem") } }
impl MemStore {
    pub fn new() -> Arc<MemStore> { Arc::new(MemStore { objs: Mutex::new(vec![]), log: Mutex::new(vec![]) }) }
    pub fn put_at(&self, path: &str, data: Vec<u8>, ms: i64) { self.objs.lock().unwrap().push((Path::from(path), Bytes::from(data), ms)); }
    pub fn has(&self, path: &str) -> bool { let p = Path::from(path); self.objs.lock().unwrap().iter().any(|o| o.0 == p) }
    pub fn bytes_of(&self, path: &str) -> Option<Bytes> { let p = Path::from(path); self.objs.lock().unwrap().iter().find(|o| o.0 == p).map(|o| o.1.clone()) }
}
fn when(ms: i64) -> chrono::DateTime<chrono::Utc> { chrono::DateTime::from_timestamp_millis(ms).unwrap() }
fn meta(o: &(Path, Bytes, i64)) -> ObjectMeta { ObjectMeta { location: o.0.clone(), last_modified: when(o.2), size: o.1.len() as u64, e_tag: None, version: None } }
fn missing(p: &Path) -> Error { Error::NotFound { path: p.to_string(), source: "none".into() } }
#[async_trait::async_trait]
impl ObjectStore for MemStore {
    async fn put_opts(&self, location: &Path, payload: PutPayload, opts: PutOptions) -> Result<PutResult> {
        let mut o = self.objs.lock().unwrap();
        let at = o.iter().position(|x| &x.0 == location);
        if at.is_some() && matches!(opts.mode, PutMode::Create) { return Err(Error::AlreadyExists { path: location.to_string(), source: "exists".into() }); }
        let data = Bytes::from(payload);
        match at { Some(i) => o[i].1 = data, None => o.push((location.clone(), data, 0)) }
        Ok(PutResult { e_tag: None, version: None })
    }
    async fn put_multipart_opts(&self, _: &Path, _: PutMultipartOptions) -> Result<Box<dyn MultipartUpload>> { Err(Error::NotImplemented { operation: String::new(), implementer: String::new() }) }
    async fn get_opts(&self, location: &Path, _: GetOptions) -> Result<GetResult> {
        let o = self.objs.lock().unwrap();
        let Some(x) = o.iter().find(|x| &x.0 == location) else { return Err(missing(location)) };
        let (m, b) = (meta(x), x.1.clone());
        let range = 0..m.size;
        Ok(GetResult { payload: GetResultPayload::Stream(stream::once(async move { Ok(b) }).boxed()), meta: m, range, attributes: Attributes::new() })
    }
    fn delete_stream(&self, locations: BoxStream<'static, Result<Path>>) -> BoxStream<'static, Result<Path>> {
        let paths: Vec<Result<Path>> = block_on(locations.collect::<Vec<_>>());
        let mut o = self.objs.lock().unwrap();
        for p in paths.iter().flatten() { o.retain(|x| &x.0 != p); self.log.lock().unwrap().push(p.to_string()); }
        stream::iter(paths).boxed()
    }
    fn list(&self, prefix: Option<&Path>) -> BoxStream<'static, Result<ObjectMeta>> {
        let o = self.objs.lock().unwrap();
        let v: Vec<Result<ObjectMeta>> = o.iter().filter(|x| prefix.is_none_or(|p| x.0.prefix_matches(p))).map(|x| Ok(meta(x))).collect();
        stream::iter(v).boxed()
    }
    fn list_with_offset(&self, prefix: Option<&Path>, offset: &Path) -> BoxStream<'static, Result<ObjectMeta>> {
        let o = self.objs.lock().unwrap();
        let v: Vec<Result<ObjectMeta>> = o.iter().filter(|x| prefix.is_none_or(|p| x.0.prefix_matches(p)) && &x.0 > offset).map(|x| Ok(meta(x))).collect();
        stream::iter(v).boxed()
    }
    async fn list_with_delimiter(&self, prefix: Option<&Path>) -> Result<ListResult> {
        let o = self.objs.lock().unwrap();
        Ok(ListResult { common_prefixes: vec![], objects: o.iter().filter(|x| prefix.is_none_or(|p| x.0.prefix_matches(p))).map(meta).collect() })
    }
    async fn copy_opts(&self, _: &Path, _: &Path, _: CopyOptions) -> Result<()> { Err(Error::NotImplemented { operation: String::new(), implementer: String::new() }) }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    let mut i = 0;
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        i += 1;
        assert!(i < 1000, "future never completes");
    }
}

/// A Delta log over such a store.
pub struct Log(pub Arc<MemStore>);
#[async_trait::async_trait]
impl sail_delta_lake::delta_log::store::LogStore for Log {
    fn name(&self) -> String { String::new() }
    async fn read_commit_entry(&self, v: i64) -> sail_delta_lake::spec::DeltaResult<Option<Bytes>> { Ok(self.0.bytes_of(["_delta_log/0000000000000000000", DIG[v as usize], ".json"].concat().as_str())) }
    async fn write_commit_entry(&self, _: i64, _: sail_delta_lake::delta_log::store::CommitOrBytes, _: uuid::Uuid) -> std::result::Result<(), sail_delta_lake::spec::TransactionError> { panic!() }
    async fn abort_commit_entry(&self, _: i64, _: sail_delta_lake::delta_log::store::CommitOrBytes, _: uuid::Uuid) -> std::result::Result<(), sail_delta_lake::spec::TransactionError> { panic!() }
    async fn get_latest_version(&self, _: i64) -> sail_delta_lake::spec::DeltaResult<i64> { panic!() }
    fn object_store(&self, _: Option<uuid::Uuid>) -> Arc<dyn ObjectStore> { self.0.clone() }
    fn root_object_store(&self, _: Option<uuid::Uuid>) -> Arc<dyn ObjectStore> { self.0.clone() }
    fn config(&self) -> &sail_delta_lake::delta_log::store::LogStoreConfig { panic!() }
}
pub const DIG: [&str; 10] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"];
