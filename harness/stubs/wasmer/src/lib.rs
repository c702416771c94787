//! Stand-in for wasmer: modules are looked up by their bytes among programs that the harness registers, and the
//! code of a program is a Rust function of the harness which calls the imported host functions and uses the memory.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;

pub use wasmer_derive::WasmerEnv;

// ---------------------------------------------------------------- values and types
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Type {
    I32,
    I64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Value {
    I32(i32),
    I64(i64),
}
pub type Val = Value;
impl Value {
    pub fn i32(&self) -> Option<i32> {
        match self {
            Value::I32(x) => Some(*x),
            _ => None,
        }
    }
    pub fn i64(&self) -> Option<i64> {
        match self {
            Value::I64(x) => Some(*x),
            _ => None,
        }
    }
    pub fn unwrap_i32(&self) -> i32 {
        self.i32().expect("Value is not of Wasm type i32")
    }
    pub fn unwrap_i64(&self) -> i64 {
        self.i64().expect("Value is not of Wasm type i64")
    }
    pub fn ty(&self) -> Type {
        match self {
            Value::I32(_) => Type::I32,
            Value::I64(_) => Type::I64,
        }
    }
}
macro_rules! from {
    ($($t:ty, $v:ident, $w:ty;)*) => {$(
        impl From<$t> for Value { fn from(x: $t) -> Value { Value::$v(x as $w) } }
        impl FromToNativeWasmType for $t {
            const TYPE: Type = Type::$v;
            fn from_val(v: &Value) -> Option<$t> { match v { Value::$v(x) => Some(*x as $t), _ => None } }
            fn to_val(self) -> Value { Value::$v(self as $w) }
        }
        impl WasmTypeList for $t { fn types() -> Vec<Type> { vec![Type::$v] } }
        impl WasmReturn for $t { fn list(self) -> Vec<Value> { vec![self.to_val()] } }
    )*};
}
pub trait FromToNativeWasmType: Sized {
    const TYPE: Type;
    fn from_val(v: &Value) -> Option<Self>;
    fn to_val(self) -> Value;
}
pub trait WasmTypeList {
    fn types() -> Vec<Type>;
}
impl WasmTypeList for () {
    fn types() -> Vec<Type> {
        Vec::new()
    }
}
pub trait WasmReturn {
    fn list(self) -> Vec<Value>;
}
impl WasmReturn for () {
    fn list(self) -> Vec<Value> {
        Vec::new()
    }
}
from! { i32, I32, i32; u32, I32, i32; i64, I64, i64; u64, I64, i64; }
impl<A: FromToNativeWasmType> WasmTypeList for (A,) {
    fn types() -> Vec<Type> {
        vec![A::TYPE]
    }
}
impl<A: FromToNativeWasmType, B: FromToNativeWasmType> WasmTypeList for (A, B) {
    fn types() -> Vec<Type> {
        vec![A::TYPE, B::TYPE]
    }
}
impl<A: FromToNativeWasmType, B: FromToNativeWasmType, C: FromToNativeWasmType> WasmTypeList for (A, B, C) {
    fn types() -> Vec<Type> {
        vec![A::TYPE, B::TYPE, C::TYPE]
    }
}
pub unsafe trait ValueType: Copy
where
    Self: Sized,
{
}
unsafe impl ValueType for u8 {}
unsafe impl ValueType for u16 {}
unsafe impl ValueType for u32 {}
unsafe impl ValueType for u64 {}
unsafe impl ValueType for i32 {}
unsafe impl ValueType for i64 {}

// ---------------------------------------------------------------- errors
macro_rules! error {
    ($($n:ident)*) => {$(
        #[derive(Debug, Clone)]
        pub struct $n(pub String);
        impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
        impl std::error::Error for $n {}
        impl $n { pub fn new<S: Into<String>>(s: S) -> $n { $n(s.into()) } pub fn message(self) -> String { self.0 } }
    )*};
}
error! { CompileError InstantiationError RuntimeError ExportError HostEnvInitError MemoryError }

// ---------------------------------------------------------------- engine
#[derive(Clone, Default)]
pub struct Singlepass;
pub struct Universal;
pub struct UniversalEngine;
impl Universal {
    pub fn new(_: Singlepass) -> Universal {
        Universal
    }
    pub fn engine(self) -> UniversalEngine {
        UniversalEngine
    }
}
#[derive(Clone)]
pub struct Store;
impl Store {
    pub fn new(_: &UniversalEngine) -> Store {
        Store
    }
}

// ---------------------------------------------------------------- memory
pub const WASM_PAGE_SIZE: usize = 0x10000;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Bytes(pub usize);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pages(pub u32);
impl Pages {
    pub fn bytes(self) -> Bytes {
        Bytes(self.0 as usize * WASM_PAGE_SIZE)
    }
}
impl std::ops::Add for Pages {
    type Output = Pages;
    fn add(self, o: Pages) -> Pages {
        Pages(self.0 + o.0)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct PageCountOutOfRange;
impl std::convert::TryFrom<Bytes> for Pages {
    type Error = PageCountOutOfRange;
    fn try_from(b: Bytes) -> Result<Pages, PageCountOutOfRange> {
        let p = b.0 / WASM_PAGE_SIZE;
        if p > 65536 {
            Err(PageCountOutOfRange)
        } else {
            Ok(Pages(p as u32))
        }
    }
}
struct Mem {
    // one allocation per state of growth, kept alive for views
    cells: std::cell::UnsafeCell<Vec<Vec<Cell<u8>>>>,
    max: Option<u32>,
}
#[derive(Clone)]
pub struct Memory(Rc<Mem>);
// the harness uses one thread
unsafe impl Send for Memory {}
unsafe impl Sync for Memory {}
impl fmt::Debug for Memory {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Memory")
    }
}
#[derive(Clone, Copy, Debug)]
pub struct MemoryType {
    pub minimum: Pages,
    pub maximum: Option<Pages>,
    pub shared: bool,
}
impl MemoryType {
    pub fn new(min: impl IntoPages, max: Option<u32>, shared: bool) -> MemoryType {
        MemoryType { minimum: min.pages(), maximum: max.map(Pages), shared }
    }
}
pub trait IntoPages {
    fn pages(self) -> Pages;
}
impl IntoPages for Pages {
    fn pages(self) -> Pages {
        self
    }
}
impl IntoPages for u32 {
    fn pages(self) -> Pages {
        Pages(self)
    }
}
fn zeros(n: usize) -> Vec<Cell<u8>> {
    let v: Vec<u8> = vec![0; n];
    unsafe { std::mem::transmute(v) }
}
impl Memory {
    pub fn new(_: &Store, t: MemoryType) -> Result<Memory, MemoryError> {
        Ok(Memory(Rc::new(Mem { cells: std::cell::UnsafeCell::new(vec![zeros(t.minimum.bytes().0)]), max: t.maximum.map(|p| p.0) })))
    }
    fn cells(&self) -> &[Cell<u8>] {
        let v = unsafe { &*self.0.cells.get() };
        &v[v.len() - 1]
    }
    pub fn view<T: ValueType>(&self) -> MemoryView<'_, T> {
        let c = self.cells();
        MemoryView { ptr: c.as_ptr() as *const Cell<T>, len: c.len() / std::mem::size_of::<T>(), life: PhantomData }
    }
    pub fn size(&self) -> Pages {
        Pages((self.cells().len() / WASM_PAGE_SIZE) as u32)
    }
    pub fn data_size(&self) -> u64 {
        self.cells().len() as u64
    }
    pub fn grow(&self, delta: impl IntoPages) -> Result<Pages, MemoryError> {
        let old = self.size();
        let new = old.0 as u64 + delta.pages().0 as u64;
        if new > self.0.max.unwrap_or(65536) as u64 {
            return Err(MemoryError::new("memory could not grow"));
        }
        let more = zeros(new as usize * WASM_PAGE_SIZE);
        for (a, b) in more.iter().zip(self.cells()) {
            a.set(b.get());
        }
        unsafe { (*self.0.cells.get()).push(more) };
        Ok(old)
    }
}
pub struct MemoryView<'a, T> {
    ptr: *const Cell<T>,
    len: usize,
    life: PhantomData<&'a ()>,
}
impl<'a, T> Deref for MemoryView<'a, T> {
    type Target = [Cell<T>];
    fn deref(&self) -> &[Cell<T>] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
pub struct Item;
pub struct Array;
pub struct WasmPtr<T: Copy, Ty = Item> {
    offset: u32,
    ty: PhantomData<(T, Ty)>,
}
impl<T: Copy, Ty> Clone for WasmPtr<T, Ty> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T: Copy, Ty> Copy for WasmPtr<T, Ty> {}
impl<T: Copy, Ty> WasmPtr<T, Ty> {
    pub fn new(offset: u32) -> Self {
        WasmPtr { offset, ty: PhantomData }
    }
    pub fn offset(self) -> u32 {
        self.offset
    }
}
pub struct WasmCell<'a, T>(&'a Cell<T>);
impl<'a, T: Copy> WasmCell<'a, T> {
    pub fn get(&self) -> T {
        self.0.get()
    }
    pub fn set(&self, v: T) {
        self.0.set(v)
    }
}
impl<T: Copy + ValueType> WasmPtr<T, Item> {
    pub fn deref<'a>(self, memory: &'a Memory) -> Option<WasmCell<'a, T>> {
        let n = std::mem::size_of::<T>();
        if self.offset as usize + n > memory.size().bytes().0 || n == 0 {
            return None;
        }
        let at = memory.cells().as_ptr() as usize + self.offset as usize;
        let at = at & !(std::mem::align_of::<T>() - 1);
        Some(WasmCell(unsafe { &*(at as *const Cell<T>) }))
    }
}

// ---------------------------------------------------------------- functions
pub trait WasmerEnv {
    fn init_with_instance(&mut self, _: &Instance) -> Result<(), HostEnvInitError> {
        Ok(())
    }
}
type Code = dyn Fn(&[Value]) -> Result<Vec<Value>, RuntimeError>;
#[derive(Clone)]
pub struct Function {
    params: Vec<Type>,
    results: Vec<Type>,
    code: Rc<Code>,
}
pub struct NativeFunc<A, R>(PhantomData<(A, R)>);
pub trait HostFunction<Args, Rets, Env> {
    fn host(self, env: Env) -> Function;
}
macro_rules! host {
    ($($a:ident)*) => {
        impl<Func, Env: 'static, Rets: WasmReturn + WasmTypeList + 'static, $($a: FromToNativeWasmType + 'static),*> HostFunction<($($a,)*), Rets, Env> for Func
        where Func: Fn(&Env $(, $a)*) -> Rets + 'static {
            #[allow(non_snake_case, unused_mut, unused_variables)]
            fn host(self, env: Env) -> Function {
                Function {
                    params: vec![$($a::TYPE),*],
                    results: Rets::types(),
                    code: Rc::new(move |args: &[Value]| {
                        let mut it = args.iter();
                        $(let $a = it.next().and_then($a::from_val).ok_or_else(|| RuntimeError::new("indirect call type mismatch"))?;)*
                        Ok(self(&env $(, $a)*).list())
                    }),
                }
            }
        }
    };
}
host!();
host!(A1);
host!(A1 A2);
host!(A1 A2 A3);
host!(A1 A2 A3 A4);
impl Function {
    pub fn new_native_with_env<F, Args, Rets, Env>(_: &Store, env: Env, f: F) -> Function
    where
        F: HostFunction<Args, Rets, Env>,
        Env: WasmerEnv,
    {
        f.host(env)
    }
    pub fn native<Args: WasmTypeList, Rets: WasmTypeList>(&self) -> Result<NativeFunc<Args, Rets>, RuntimeError> {
        if Args::types() != self.params {
            return Err(RuntimeError::new("given types for the function arguments don't match"));
        }
        if Rets::types() != self.results {
            return Err(RuntimeError::new("given types for the function results don't match"));
        }
        Ok(NativeFunc(PhantomData))
    }
    pub fn call(&self, params: &[Value]) -> Result<Box<[Value]>, RuntimeError> {
        if params.len() != self.params.len() || params.iter().zip(&self.params).any(|(a, b)| a.ty() != *b) {
            return Err(RuntimeError::new("Parameters do not match the signature"));
        }
        (self.code)(params).map(|v| v.into_boxed_slice())
    }
}

// ---------------------------------------------------------------- exports and imports
#[derive(Clone)]
pub enum Extern {
    Function(Function),
    Memory(Memory),
}
impl From<Function> for Extern {
    fn from(f: Function) -> Extern {
        Extern::Function(f)
    }
}
impl From<Memory> for Extern {
    fn from(f: Memory) -> Extern {
        Extern::Memory(f)
    }
}
#[derive(Clone, Default)]
pub struct Exports(BTreeMap<String, Extern>);
impl Exports {
    pub fn new() -> Exports {
        Exports::default()
    }
    pub fn insert<S: Into<String>, E: Into<Extern>>(&mut self, name: S, e: E) {
        self.0.insert(name.into(), e.into());
    }
    pub fn get_function(&self, name: &str) -> Result<&Function, ExportError> {
        match self.0.get(name) {
            Some(Extern::Function(f)) => Ok(f),
            Some(_) => Err(ExportError::new("Incompatible Export Type")),
            None => Err(ExportError::new("Missing export")),
        }
    }
    pub fn get_memory(&self, name: &str) -> Result<&Memory, ExportError> {
        match self.0.get(name) {
            Some(Extern::Memory(f)) => Ok(f),
            Some(_) => Err(ExportError::new("Incompatible Export Type")),
            None => Err(ExportError::new("Missing export")),
        }
    }
}
#[derive(Clone, Default)]
pub struct ImportObject(BTreeMap<String, Exports>);
impl ImportObject {
    pub fn new() -> ImportObject {
        ImportObject::default()
    }
    pub fn register<S: Into<String>>(&mut self, name: S, ns: Exports) -> Option<Exports> {
        self.0.insert(name.into(), ns)
    }
}
pub struct Module(Rc<vp::Program>);
impl Module {
    pub fn from_binary(_: &Store, code: &[u8]) -> Result<Module, CompileError> {
        vp::find(code).map(Module).ok_or_else(|| CompileError::new("not a program"))
    }
    pub fn new(s: &Store, code: impl AsRef<[u8]>) -> Result<Module, CompileError> {
        Module::from_binary(s, code.as_ref())
    }
}
pub struct Instance {
    pub exports: Exports,
}
impl Instance {
    pub fn new(m: &Module, imports: &ImportObject) -> Result<Instance, InstantiationError> {
        let p = m.0.clone();
        let memory = Memory::new(&Store, MemoryType::new(p.pages, p.max_pages, false)).unwrap();
        let guest = Rc::new(vp::Guest { imports: imports.clone(), memory: memory.clone() });
        let mut exports = Exports::new();
        if p.memory {
            exports.insert("memory", memory);
        }
        for (name, params, results) in p.exports.iter() {
            let (g, q, n) = (guest.clone(), p.clone(), name.clone());
            exports.insert(*name, Function { params: params.to_vec(), results: results.to_vec(), code: Rc::new(move |a: &[Value]| (q.code)(&g, n, a).map_err(RuntimeError::new)) });
        }
        if p.start {
            (p.code)(&guest, "start", &[]).map_err(InstantiationError::new)?;
        }
        Ok(Instance { exports })
    }
}

/// The programs of the harness.
pub mod vp {
    use super::*;
    use std::cell::RefCell;
    pub struct Guest {
        pub(crate) imports: ImportObject,
        pub memory: Memory,
    }
    pub type GuestCode = fn(&Guest, &'static str, &[Value]) -> Result<Vec<Value>, String>;
    pub struct Program {
        pub pages: u32,
        pub max_pages: Option<u32>,
        pub memory: bool,
        pub start: bool,
        pub exports: &'static [(&'static str, &'static [Type], &'static [Type])],
        pub code: GuestCode,
    }
    thread_local!(static PROGRAMS: RefCell<Vec<(Vec<u8>, Rc<Program>)>> = RefCell::new(Vec::new()));
    pub fn register(code: &[u8], p: Program) {
        PROGRAMS.with(|x| x.borrow_mut().push((code.to_vec(), Rc::new(p))));
    }
    pub(crate) fn find(code: &[u8]) -> Option<Rc<Program>> {
        PROGRAMS.with(|x| x.borrow().iter().rev().find(|e| e.0 == code).map(|e| e.1.clone()))
    }
    impl Guest {
        /// Calls a host function. A missing one cannot be linked.
        pub fn host(&self, name: &str, args: &[Value]) -> Option<Value> {
            match self.imports.0.get("svm").and_then(|n| n.0.get(name)) {
                Some(Extern::Function(f)) => f.call(args).expect("host call").first().copied(),
                _ => panic!("host function {} is not offered", name),
            }
        }
        pub fn write(&self, at: u32, bytes: &[u8]) {
            let v = self.memory.view::<u8>();
            for (i, b) in bytes.iter().enumerate() {
                v[at as usize + i].set(*b);
            }
        }
        pub fn read(&self, at: u32, n: u32) -> Vec<u8> {
            self.memory.view::<u8>()[at as usize..][..n as usize].iter().map(|c| c.get()).collect()
        }
    }
}
