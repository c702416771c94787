//! Stand-in for sqlx with SQLite: statements are executed one at a time by a small SQL database in memory that keeps
//! its content per database URI. A harness can let the process "crash" between any two statements: from then on every
//! statement fails and nothing changes until the database is opened again.
#![allow(clippy::all)]
mod sql;
use sql::{Db, Stmt};
pub use sql::Value;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll};

extern "C" {
    fn vp_unsupported(p: *const u8, n: usize) -> !;
}
#[cold]
pub(crate) fn unsupported(what: &str) -> ! {
    unsafe { vp_unsupported(what.as_ptr(), what.len()) }
}

/// The switchboard of the harness.
pub mod vp {
    use super::*;
    pub(crate) static mut CRASH_IN: Option<usize> = None;
    pub(crate) static mut FAIL_IN: Option<usize> = None;
    pub(crate) static mut CRASHED: bool = false;
    pub(crate) static mut DELAY: Option<fn() -> bool> = None;
    pub(crate) static mut WRITES: usize = 0;
    /// Lets the process crash when `n` more changing statements have been executed.
    pub fn crash_after(n: usize) {
        unsafe { CRASH_IN = Some(n) }
    }
    /// Lets one statement, of any kind, fail without a change when `n` more have been executed.
    pub fn fail_after(n: Option<usize>) {
        unsafe { FAIL_IN = n }
    }
    /// Whether the statement that was to fail is still to come.
    pub fn fail_pending() -> bool {
        unsafe { FAIL_IN.is_some() }
    }
    /// A new process: statements work again; an open transaction is gone.
    pub fn restart() {
        unsafe {
            CRASH_IN = None;
            CRASHED = false;
        }
        for d in dbs().iter() {
            let mut d = d.1.db.borrow_mut();
            if let Some(t) = d.saved.take() {
                d.tables = t;
            }
        }
    }
    pub fn crashed() -> bool {
        unsafe { CRASHED }
    }
    /// Called when a statement is first polled; `true` delays it until later polls.
    pub fn set_delay(f: Option<fn() -> bool>) {
        unsafe { DELAY = f }
    }
    /// Number of changing statements executed so far.
    pub fn writes() -> usize {
        unsafe { WRITES }
    }
}

#[derive(Debug)]
pub enum Error {
    Database(String),
    RowNotFound,
    Io(std::io::Error),
    PoolClosed,
    PoolTimedOut,
    Decode(String),
}
pub type Result<T> = std::result::Result<T, Error>;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("database error")
    }
}
impl std::error::Error for Error {}

#[derive(Debug)]
pub struct Sqlite;
pub trait Database: 'static {}
impl Database for Sqlite {}

pub struct Shared {
    db: RefCell<Db>,
    cache: RefCell<Vec<(String, Rc<Vec<Stmt>>)>>,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    fn parse(&self, sql: &str) -> Rc<Vec<Stmt>> {
        if let Some(x) = self.cache.borrow().iter().find(|x| x.0 == sql) {
            return x.1.clone();
        }
        let s = Rc::new(sql::parse(sql));
        self.cache.borrow_mut().push((sql.to_string(), s.clone()));
        s
    }
    /// Executes every statement of `sql`; rows of the last SELECT.
    fn exec(&self, sql: &str, params: &[Value]) -> Result<(u64, Vec<Vec<Value>>)> {
        let stmts = self.parse(sql);
        let (mut n, mut rows) = (0, Vec::new());
        for s in stmts.iter() {
            let dead = || Error::Io(std::io::Error::from(std::io::ErrorKind::BrokenPipe));
            if vp::crashed() {
                return Err(dead());
            }
            unsafe {
                if let Some(k) = vp::FAIL_IN {
                    vp::FAIL_IN = if k == 0 { None } else { Some(k - 1) };
                    if k == 0 {
                        return Err(dead());
                    }
                }
            }
            if let Stmt::Select(s) = s {
                rows = self.db.borrow().select(s, params);
                continue;
            }
            unsafe {
                if let Some(k) = vp::CRASH_IN {
                    if k == 0 {
                        vp::CRASHED = true;
                        return Err(dead());
                    }
                    vp::CRASH_IN = Some(k - 1);
                }
                vp::WRITES += 1;
            }
            match self.db.borrow_mut().run(s, params) {
                Ok(k) => n += k,
                Err(e) => return Err(Error::Database(e.0.to_string())),
            }
        }
        Ok((n, rows))
    }
}
struct Dbs(Vec<(String, Arc<Shared>)>);
static mut DBS: Dbs = Dbs(Vec::new());
pub(crate) fn dbs() -> &'static mut Vec<(String, Arc<Shared>)> {
    unsafe { &mut DBS.0 }
}
fn open(uri: &str) -> Arc<Shared> {
    let fresh = || Arc::new(Shared { db: RefCell::new(Db::default()), cache: RefCell::new(Vec::new()) });
    if uri.contains(":memory:") {
        return fresh();
    }
    if let Some(d) = dbs().iter().find(|d| d.0 == uri) {
        return d.1.clone();
    }
    let d = fresh();
    dbs().push((uri.to_string(), d.clone()));
    d
}

pub struct Pool<DB>(Arc<Shared>, PhantomData<DB>);
pub type SqlitePool = Pool<Sqlite>;
impl<DB> Clone for Pool<DB> {
    fn clone(&self) -> Self {
        Pool(self.0.clone(), PhantomData)
    }
}
impl<DB> std::fmt::Debug for Pool<DB> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Pool")
    }
}
unsafe impl<DB> Send for Pool<DB> {}
unsafe impl<DB> Sync for Pool<DB> {}
impl<DB> Pool<DB> {
    pub async fn connect(uri: &str) -> Result<Self> {
        Ok(Pool(open(uri), PhantomData))
    }
    pub async fn begin(&self) -> Result<Transaction<'static, DB>> {
        self.0.exec("BEGIN", &[])?;
        Ok(Transaction { db: self.0.clone(), open: Cell::new(true), p: PhantomData })
    }
    pub async fn acquire(&self) -> Result<PoolConnection<DB>> {
        Ok(PoolConnection(self.0.clone(), PhantomData))
    }
    pub async fn close(&self) {}
}
pub struct PoolConnection<DB>(Arc<Shared>, PhantomData<DB>);
impl<DB> PoolConnection<DB> {
    pub async fn begin(&mut self) -> Result<Transaction<'_, DB>> {
        self.0.exec("BEGIN", &[])?;
        Ok(Transaction { db: self.0.clone(), open: Cell::new(true), p: PhantomData })
    }
}
pub struct Transaction<'c, DB> {
    db: Arc<Shared>,
    open: Cell<bool>,
    p: PhantomData<(&'c (), DB)>,
}
impl<'c, DB> Transaction<'c, DB> {
    pub async fn commit(self) -> Result<()> {
        self.open.set(false);
        self.db.exec("COMMIT", &[])?;
        Ok(())
    }
    pub async fn rollback(self) -> Result<()> {
        self.open.set(false);
        self.db.exec("ROLLBACK", &[])?;
        Ok(())
    }
}
impl<'c, DB> Drop for Transaction<'c, DB> {
    fn drop(&mut self) {
        if self.open.get() {
            let _ = self.db.exec("ROLLBACK", &[]);
        }
    }
}

pub trait Executor<'c> {
    type Database;
    #[doc(hidden)]
    fn shared(self) -> Arc<Shared>;
}
impl<'c, 'p, DB> Executor<'c> for &'p Pool<DB> {
    type Database = DB;
    fn shared(self) -> Arc<Shared> {
        self.0.clone()
    }
}
impl<'c, 'p, DB> Executor<'c> for &'p mut PoolConnection<DB> {
    type Database = DB;
    fn shared(self) -> Arc<Shared> {
        self.0.clone()
    }
}
impl<'c, 'p, 't, DB> Executor<'c> for &'p mut Transaction<'t, DB> {
    type Database = DB;
    fn shared(self) -> Arc<Shared> {
        self.db.clone()
    }
}

pub trait Bind {
    fn value(self) -> Value;
}
macro_rules! bind_int { ($($t:ty)*) => { $(
    impl Bind for $t { fn value(self) -> Value { Value::Int(self as i64) } }
    impl<'a> Bind for &'a $t { fn value(self) -> Value { Value::Int(*self as i64) } }
)* } }
bind_int!(i8 i16 i32 i64 u8 u16 u32 bool);
macro_rules! bind { ($($t:ty, $x:ident, $e:expr;)*) => { $(impl<'a> Bind for $t { fn value(self) -> Value { let $x = self; $e } })* } }
bind! {
    Vec<u8>, x, Value::Blob(x);
    &'a Vec<u8>, x, Value::Blob(x.clone());
    &'a [u8], x, Value::Blob(x.to_vec());
    String, x, Value::Text(x);
    &'a String, x, Value::Text(x.clone());
    &'a str, x, Value::Text(x.to_string());
}
impl<T: Bind> Bind for Option<T> {
    fn value(self) -> Value {
        self.map_or(Value::Null, |x| x.value())
    }
}
pub trait FromValue: Sized {
    fn from(v: &Value) -> Result<Self>;
}
macro_rules! from_int { ($($t:ty)*) => { $(impl FromValue for $t { fn from(v: &Value) -> Result<Self> {
    match v { Value::Int(i) => Ok(*i as $t), _ => Err(Error::Decode("integer".to_string())) }
} })* } }
from_int!(i8 i16 i32 i64 u8 u16 u32);
impl FromValue for bool {
    fn from(v: &Value) -> Result<Self> {
        Ok(<i64 as FromValue>::from(v)? != 0)
    }
}
impl FromValue for Vec<u8> {
    fn from(v: &Value) -> Result<Self> {
        match v {
            Value::Blob(b) => Ok(b.clone()),
            Value::Text(b) => Ok(b.clone().into_bytes()),
            Value::Null => Ok(Vec::new()),
            _ => Err(Error::Decode("blob".to_string())),
        }
    }
}
impl FromValue for String {
    fn from(v: &Value) -> Result<Self> {
        match v {
            Value::Text(b) => Ok(b.clone()),
            _ => Err(Error::Decode("text".to_string())),
        }
    }
}
impl<T: FromValue> FromValue for Option<T> {
    fn from(v: &Value) -> Result<Self> {
        match v {
            Value::Null => Ok(None),
            v => Ok(Some(T::from(v)?)),
        }
    }
}
pub trait RowIndex {
    fn index(&self) -> usize;
}
impl RowIndex for usize {
    fn index(&self) -> usize {
        *self
    }
}
impl<'a> RowIndex for &'a str {
    fn index(&self) -> usize {
        unsupported("row access by name")
    }
}
pub struct SqliteRow(Vec<Value>);
pub trait Row {
    fn try_get<T: FromValue, I: RowIndex>(&self, i: I) -> Result<T>;
    fn get<T: FromValue, I: RowIndex>(&self, i: I) -> T {
        self.try_get(i).unwrap()
    }
}
impl Row for SqliteRow {
    fn try_get<T: FromValue, I: RowIndex>(&self, i: I) -> Result<T> {
        T::from(&self.0[i.index()])
    }
}
pub trait FromRow: Sized {
    fn from_row(r: &[Value]) -> Result<Self>;
}
macro_rules! from_row { ($($t:ident $i:tt),*) => { impl<$($t: FromValue),*> FromRow for ($($t,)*) { fn from_row(r: &[Value]) -> Result<Self> { Ok(($($t::from(&r[$i])?,)*)) } } } }
from_row!(A 0);
from_row!(A 0, B 1);
from_row!(A 0, B 1, C 2);
from_row!(A 0, B 1, C 2, D 3);
impl FromRow for SqliteRow {
    fn from_row(r: &[Value]) -> Result<Self> {
        Ok(SqliteRow(r.to_vec()))
    }
}

#[derive(Default, Debug, Clone)]
pub struct SqliteQueryResult(u64);
impl SqliteQueryResult {
    pub fn rows_affected(&self) -> u64 {
        self.0
    }
}

/// A statement in flight: executed when it is first polled, unless delayed.
pub struct Run<T> {
    db: Arc<Shared>,
    sql: &'static str,
    params: Vec<Value>,
    asked: bool,
    f: fn(Result<(u64, Vec<Vec<Value>>)>) -> Result<T>,
}
unsafe impl<T> Send for Run<T> {}
impl<T> Future for Run<T> {
    type Output = Result<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<T>> {
        let this = &mut *self;
        if !this.asked {
            this.asked = true;
            if let Some(d) = unsafe { vp::DELAY } {
                if d() {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
            }
        }
        Poll::Ready((this.f)(this.db.exec(this.sql, &this.params)))
    }
}

pub struct Query<'q, DB, O = SqliteRow> {
    sql: &'q str,
    params: Vec<Value>,
    p: PhantomData<(DB, fn() -> O)>,
}
pub type QueryAs<'q, DB, O> = Query<'q, DB, O>;
fn new_query<DB, O>(sql: &str) -> Query<'_, DB, O> {
    Query { sql, params: Vec::new(), p: PhantomData }
}
pub fn query<DB>(sql: &str) -> Query<'_, DB> {
    new_query(sql)
}
pub fn query_as<DB, O: FromRow>(sql: &str) -> Query<'_, DB, O> {
    new_query(sql)
}
pub struct Scalar<T>(T);
impl<T: FromValue> FromRow for Scalar<T> {
    fn from_row(r: &[Value]) -> Result<Self> {
        Ok(Scalar(T::from(&r[0])?))
    }
}
pub struct QueryScalar<'q, DB, O>(Query<'q, DB, Scalar<O>>);
pub fn query_scalar<DB, O: FromValue>(sql: &str) -> QueryScalar<'_, DB, O> {
    QueryScalar(new_query(sql))
}
fn many<O: FromRow>(r: Result<(u64, Vec<Vec<Value>>)>) -> Result<Vec<O>> {
    r?.1.iter().map(|r| O::from_row(r)).collect()
}
fn maybe<O: FromRow>(r: Result<(u64, Vec<Vec<Value>>)>) -> Result<Option<O>> {
    match r?.1.first() {
        Some(r) => Ok(Some(O::from_row(r)?)),
        None => Ok(None),
    }
}
fn one<O: FromRow>(r: Result<(u64, Vec<Vec<Value>>)>) -> Result<O> {
    maybe(r)?.ok_or(Error::RowNotFound)
}
fn count(r: Result<(u64, Vec<Vec<Value>>)>) -> Result<SqliteQueryResult> {
    Ok(SqliteQueryResult(r?.0))
}
impl<'q, DB, O: FromRow> Query<'q, DB, O> {
    pub fn bind<T: Bind>(mut self, v: T) -> Self {
        self.params.push(v.value());
        self
    }
    fn run<'e, T, E: Executor<'e, Database = DB>>(self, e: E, f: fn(Result<(u64, Vec<Vec<Value>>)>) -> Result<T>) -> Run<T> {
        let sql = unsafe { std::mem::transmute::<&str, &'static str>(self.sql) };
        Run { db: e.shared(), sql, params: self.params, asked: false, f }
    }
    pub fn execute<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Run<SqliteQueryResult> {
        self.run(e, count)
    }
    pub fn fetch_all<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Run<Vec<O>> {
        self.run(e, many)
    }
    pub fn fetch_one<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Run<O> {
        self.run(e, one)
    }
    pub fn fetch_optional<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Run<Option<O>> {
        self.run(e, maybe)
    }
}
impl<'q, DB, O: FromValue> QueryScalar<'q, DB, O> {
    pub fn bind<T: Bind>(self, v: T) -> Self {
        QueryScalar(self.0.bind(v))
    }
    pub async fn fetch_one<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Result<O> {
        Ok(self.0.fetch_one(e).await?.0)
    }
    pub async fn fetch_optional<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Result<Option<O>> {
        Ok(self.0.fetch_optional(e).await?.map(|x| x.0))
    }
    pub async fn fetch_all<'e, E: Executor<'e, Database = DB>>(self, e: E) -> Result<Vec<O>> {
        Ok(self.0.fetch_all(e).await?.into_iter().map(|x| x.0).collect())
    }
}

pub mod pool {
    pub use super::PoolConnection;
}
pub mod sqlite {
    use super::*;
    pub use super::{Sqlite, SqlitePool, SqliteQueryResult, SqliteRow};
    #[derive(Default, Clone, Debug)]
    pub struct SqlitePoolOptions;
    impl SqlitePoolOptions {
        pub fn new() -> Self {
            Self
        }
        pub fn max_connections(self, _: u32) -> Self {
            self
        }
        pub fn min_connections(self, _: u32) -> Self {
            self
        }
        pub async fn connect(self, uri: &str) -> Result<SqlitePool> {
            Pool::connect(uri).await
        }
    }
}
