//! Signatures only: enough of `tikv_client` for the compiler to type-check the parts of
//! /repo that use it. Nothing here is ever run; the analysis never looks inside it.
use std::future::Future;
use std::pin::Pin;

#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, Default)]
pub struct Config(());
impl Config {
    pub fn new<S: Into<String>>(_pd_endpoints: impl IntoIterator<Item = S>) -> Self { unimplemented!() }
    pub fn with_security(self, _ca: impl Into<std::path::PathBuf>, _cert: impl Into<std::path::PathBuf>, _key: impl Into<std::path::PathBuf>) -> Self { unimplemented!() }
    pub fn timeout(self, _t: std::time::Duration) -> Self { unimplemented!() }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key(Vec<u8>);
impl From<Vec<u8>> for Key { fn from(v: Vec<u8>) -> Key { Key(v) } }
impl From<Key> for Vec<u8> { fn from(v: Key) -> Vec<u8> { v.0 } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Value(Vec<u8>);
impl From<Vec<u8>> for Value { fn from(v: Vec<u8>) -> Value { Value(v) } }
impl From<Value> for Vec<u8> { fn from(v: Value) -> Vec<u8> { v.0 } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct KvPair(pub Key, pub Value);

type Fut<T> = Pin<Box<dyn Future<Output = Result<T>> + Send>>;

#[derive(Clone)]
pub struct RawClient(());
impl RawClient {
    pub fn new(_config: Config) -> Result<Self> { unimplemented!() }
    pub fn get(&self, _key: impl Into<Key>) -> Fut<Option<Value>> { unimplemented!() }
    pub fn put(&self, _key: impl Into<Key>, _value: impl Into<Value>) -> Fut<()> { unimplemented!() }
    pub fn delete(&self, _key: impl Into<Key>) -> Fut<()> { unimplemented!() }
    pub fn batch_get(&self, _keys: impl IntoIterator<Item = impl Into<Key>>) -> Fut<Vec<KvPair>> { unimplemented!() }
    pub fn batch_put(&self, _pairs: impl IntoIterator<Item = impl Into<KvPair>>) -> Fut<()> { unimplemented!() }
}
