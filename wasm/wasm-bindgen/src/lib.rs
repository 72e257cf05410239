//! Stand-in for wasm-bindgen whose JavaScript values live in this process
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub use wasm_bindgen_macro_standin::wasm_bindgen;

#[derive(Clone, Debug)]
pub enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
    /// days and milliseconds since 1970-01-01
    Date(i64),
    Class(&'static str, u32),
    /// what a constructor is known by
    Ctor(String),
}

#[derive(Clone, Debug)]
#[repr(transparent)]
pub struct JsValue(pub Repr);

thread_local! {
    static CLASSES: RefCell<(u32, HashMap<u32, Box<dyn Any>>)> = RefCell::new((8, HashMap::new()));
}

pub fn take_class<T: 'static>(ptr: u32) -> T {
    let b = CLASSES.with(|c| c.borrow_mut().1.remove(&ptr)).expect("pointer of a value");
    *b.downcast::<T>().expect("value of another class")
}

impl JsValue {
    pub const NULL: JsValue = JsValue(Repr::Null);
    pub const UNDEFINED: JsValue = JsValue(Repr::Undefined);
    pub const TRUE: JsValue = JsValue(Repr::Bool(true));
    pub const FALSE: JsValue = JsValue(Repr::Bool(false));
    pub fn null() -> Self {
        Self::NULL
    }
    pub fn undefined() -> Self {
        Self::UNDEFINED
    }
    pub fn of_class(name: &'static str, x: Box<dyn Any>) -> Self {
        let p = CLASSES.with(|c| {
            let mut c = c.borrow_mut();
            c.0 += 8;
            let p = c.0;
            c.1.insert(p, x);
            p
        });
        JsValue(Repr::Class(name, p))
    }
    /// takes a value of a class out of its JavaScript value
    pub fn take<T: 'static>(self) -> Option<T> {
        match self.0 {
            Repr::Class(_, p) => Some(take_class(p)),
            _ => None,
        }
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue(Repr::Str(s.to_string()))
    }
    pub fn from_f64(x: f64) -> Self {
        JsValue(Repr::Number(x))
    }
    pub fn from_bool(x: bool) -> Self {
        JsValue(Repr::Bool(x))
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Repr::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Repr::Number(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Repr::Bool(x) => Some(*x),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Repr::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Repr::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Repr::Str(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.0, Repr::Array(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Repr::Array(_) | Repr::Object(_) | Repr::Date(_) | Repr::Class(..) | Repr::Null)
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            Repr::Undefined | Repr::Null => false,
            Repr::Bool(x) => *x,
            Repr::Number(x) => *x != 0.0 && !x.is_nan(),
            Repr::Str(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn to_json(&self) -> serde_json::Value {
        use serde_json::Value as V;
        match &self.0 {
            Repr::Undefined | Repr::Null => V::Null,
            Repr::Bool(x) => V::Bool(*x),
            Repr::Number(x) if x.fract() == 0.0 && x.abs() < 9e15 => V::from(*x as i64),
            Repr::Number(x) => V::from(*x),
            Repr::Str(s) => V::String(s.clone()),
            Repr::Array(a) => V::Array(a.borrow().iter().map(|x| x.to_json()).collect()),
            Repr::Object(m) => V::Object(m.borrow().iter().map(|(k, v)| (k.clone(), v.to_json())).collect()),
            x => V::String(format!("{:?}", x)),
        }
    }
    pub fn of_json(v: &serde_json::Value) -> Self {
        use serde_json::Value as V;
        JsValue(match v {
            V::Null => Repr::Null,
            V::Bool(x) => Repr::Bool(*x),
            V::Number(x) => Repr::Number(x.as_f64().unwrap()),
            V::String(s) => Repr::Str(s.clone()),
            V::Array(a) => Repr::Array(Rc::new(RefCell::new(a.iter().map(Self::of_json).collect()))),
            V::Object(m) => Repr::Object(Rc::new(RefCell::new(m.iter().map(|(k, v)| (k.clone(), Self::of_json(v))).collect()))),
        })
    }
    pub fn from_serde<T: serde::Serialize + ?Sized>(t: &T) -> serde_json::Result<Self> {
        Ok(Self::of_json(&serde_json::to_value(t)?))
    }
    pub fn into_serde<T: for<'a> serde::Deserialize<'a>>(&self) -> serde_json::Result<T> {
        serde_json::from_value(self.to_json())
    }
}

impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(x: bool) -> Self {
        JsValue::from_bool(x)
    }
}
macro_rules! num {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> Self { JsValue::from_f64(x as f64) } })* };
}
num!(u8 u16 u32 usize i8 i16 i32 isize f32 f64);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> Self {
        x.map_or(JsValue::UNDEFINED, Into::into)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool {
        matches!(&self.0, Repr::Str(s) if s == o)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// # Safety
/// implementors are transparent wrappers of `JsValue`
pub unsafe trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(v: &JsValue) -> bool;
    fn has_type<T: JsCast>(&self) -> bool
    where
        Self: Sized,
    {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool
    where
        Self: Sized,
    {
        T::instanceof(self.as_ref())
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T>
    where
        Self: Sized,
    {
        T::instanceof(self.as_ref()).then(|| unsafe { &*(self.as_ref() as *const JsValue as *const T) })
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T
    where
        Self: Sized,
    {
        unsafe { &*(self.as_ref() as *const JsValue as *const T) }
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        match self.dyn_ref::<T>().is_some() {
            true => Ok(self.unchecked_into::<T>()),
            false => Err(self),
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        let v: JsValue = self.into();
        let v = std::mem::ManuallyDrop::new(v);
        unsafe { std::ptr::read(&*v as *const JsValue as *const T) }
    }
}
unsafe impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
}

pub mod convert {
    pub trait FromWasmAbi {
        type Abi;
        /// # Safety
        /// the value must be one that was given out
        unsafe fn from_abi(abi: Self::Abi) -> Self;
    }
    pub use crate::JsCast as _;
}

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue};
}
