//! Stand-in for js-sys; the local time zone is UTC
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue, Repr};

macro_rules! class {
    ($n:ident : $base:ty, $p:pat) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $n(JsValue);
        impl Deref for $n {
            type Target = $base;
            fn deref(&self) -> &$base {
                unsafe { &*(&self.0 as *const JsValue as *const $base) }
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$n> for JsValue {
            fn from(x: $n) -> JsValue {
                x.0
            }
        }
        unsafe impl JsCast for $n {
            fn instanceof(v: &JsValue) -> bool {
                matches!(v.0, $p)
            }
        }
    };
}
class!(Object: JsValue, Repr::Object(_) | Repr::Array(_) | Repr::Date(_) | Repr::Class(..));
class!(Array: Object, Repr::Array(_));
class!(Date: Object, Repr::Date(_));
class!(JsString: Object, Repr::Str(_));
class!(Function: Object, Repr::Ctor(_));

impl From<JsValue> for Object {
    fn from(v: JsValue) -> Object {
        Object(v)
    }
}
impl From<Array> for Object {
    fn from(v: Array) -> Object {
        Object(v.0)
    }
}
impl AsRef<Object> for Array {
    fn as_ref(&self) -> &Object {
        self
    }
}
impl TryFrom<JsValue> for Array {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<Array, JsValue> {
        if Array::instanceof(&v) {
            Ok(Array(v))
        } else {
            Err(v)
        }
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.0 == *o
    }
}
impl<'a> PartialEq<&'a str> for JsString {
    fn eq(&self, o: &&'a str) -> bool {
        self.0 == **o
    }
}
impl From<&JsString> for String {
    fn from(s: &JsString) -> String {
        s.0.as_string().unwrap()
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> String {
        s.0.as_string().unwrap()
    }
}
impl From<&str> for JsString {
    fn from(s: &str) -> JsString {
        JsString(JsValue::from_str(s))
    }
}

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object {
        Object(JsValue(Repr::Object(Rc::new(RefCell::new(vec![])))))
    }
    fn fields(&self) -> Vec<(String, JsValue)> {
        match &self.0 .0 {
            Repr::Object(m) => m.borrow().clone(),
            Repr::Array(a) => a.borrow().iter().enumerate().map(|(i, x)| (i.to_string(), x.clone())).collect(),
            _ => vec![],
        }
    }
    pub fn from_entries(v: &JsValue) -> Result<Object, JsValue> {
        let a = match &v.0 {
            Repr::Array(a) => a.borrow().clone(),
            _ => return Err(JsValue::from_str("not iterable")),
        };
        let mut m: Vec<(String, JsValue)> = vec![];
        for e in a {
            match &e.0 {
                Repr::Array(p) => {
                    let p = p.borrow();
                    let k = p.first().and_then(|k| k.as_string()).ok_or_else(|| JsValue::from_str("key"))?;
                    let v = p.get(1).cloned().unwrap_or(JsValue::UNDEFINED);
                    match m.iter_mut().find(|x| x.0 == k) {
                        Some(x) => x.1 = v,
                        None => m.push((k, v)),
                    }
                }
                _ => return Err(JsValue::from_str("entry is no object")),
            }
        }
        Ok(Object(JsValue(Repr::Object(Rc::new(RefCell::new(m))))))
    }
    pub fn entries(o: &Object) -> Array {
        o.fields().into_iter().map(|(k, v)| Array::of2(&JsValue::from_str(&k), &v)).collect()
    }
    pub fn keys(o: &Object) -> Array {
        o.fields().into_iter().map(|(k, _)| JsValue::from_str(&k)).collect()
    }
    pub fn values(o: &Object) -> Array {
        o.fields().into_iter().map(|(_, v)| v).collect()
    }
    pub fn get_prototype_of(v: &JsValue) -> Object {
        Object(JsValue(Repr::Ctor(match &v.0 {
            Repr::Class(n, _) => n.to_string(),
            Repr::Array(_) => "Array".into(),
            Repr::Date(_) => "Date".into(),
            Repr::Str(_) => "String".into(),
            Repr::Number(_) => "Number".into(),
            Repr::Bool(_) => "Boolean".into(),
            Repr::Undefined | Repr::Null => panic!("TypeError: cannot convert undefined or null to object"),
            _ => "Object".into(),
        })))
    }
    pub fn constructor(&self) -> Function {
        Function(self.0.clone())
    }
}
impl Function {
    pub fn name(&self) -> JsString {
        match &self.0 .0 {
            Repr::Ctor(n) => JsString(JsValue::from_str(n)),
            _ => JsString(JsValue::from_str("Object")),
        }
    }
}

pub struct Reflect;
impl Reflect {
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        let k = k.as_string().unwrap_or_default();
        Ok(match &o.0 {
            Repr::Class(_, p) if k == "ptr" => JsValue::from_f64(*p as f64),
            Repr::Object(m) => m.borrow().iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(JsValue::UNDEFINED),
            _ => JsValue::UNDEFINED,
        })
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let k = k.as_string().unwrap_or_default();
        if let Repr::Object(m) = &o.0 {
            let mut m = m.borrow_mut();
            match m.iter_mut().find(|x| x.0 == k) {
                Some(x) => x.1 = v.clone(),
                None => m.push((k, v.clone())),
            }
            return Ok(true);
        }
        Err(JsValue::from_str("TypeError"))
    }
}

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Array {
        Array(JsValue(Repr::Array(Rc::new(RefCell::new(vec![])))))
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        let x = Array::new();
        x.push(a);
        x.push(b);
        x
    }
    fn v(&self) -> &Rc<RefCell<Vec<JsValue>>> {
        match &self.0 .0 {
            Repr::Array(a) => a,
            _ => unreachable!(),
        }
    }
    pub fn push(&self, x: &JsValue) -> u32 {
        self.v().borrow_mut().push(x.clone());
        self.length()
    }
    pub fn length(&self) -> u32 {
        self.v().borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.v().borrow().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.v().borrow().clone().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.v().borrow().clone()
    }
    pub fn is_array(v: &JsValue) -> bool {
        Array::instanceof(v)
    }
    pub fn from(v: &JsValue) -> Array {
        match &v.0 {
            Repr::Array(a) => a.borrow().iter().cloned().collect(),
            _ => Array::new(),
        }
    }
}
impl<T: AsRef<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Array {
        let a = Array::new();
        for x in i {
            a.push(x.as_ref());
        }
        a
    }
}

const DAY: i64 = 86_400_000;
/// days since 1970-01-01 of a day of the calendar, where months count from 0 and may overflow
fn days(y: i64, m: i64, d: i64) -> i64 {
    let (y, m) = (y + m.div_euclid(12), m.rem_euclid(12) + 1);
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468 + d - 1
}
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m - 1, doy - (153 * mp + 2) / 5 + 1)
}
impl Date {
    fn ms(&self) -> i64 {
        match self.0 .0 {
            Repr::Date(x) => x,
            _ => unreachable!(),
        }
    }
    pub fn of_day(y: i64, month0: i64, d: i64) -> Date {
        Date(JsValue(Repr::Date(days(y, month0, d) * DAY)))
    }
    pub fn new(v: &JsValue) -> Date {
        match &v.0 {
            Repr::Number(x) => Date(JsValue(Repr::Date(*x as i64))),
            Repr::Str(s) => {
                let p: Vec<i64> = s.splitn(3, '-').filter_map(|x| x.get(..x.len().min(4)).and_then(|x| x.parse().ok())).collect();
                Date::of_day(p[0], p.get(1).copied().unwrap_or(1) - 1, p.get(2).copied().unwrap_or(1))
            }
            _ => panic!("date from {:?}", v),
        }
    }
    fn year_of(y: u32) -> i64 {
        // two digit years belong to the twentieth century
        if y <= 99 {
            1900 + y as i64
        } else {
            y as i32 as i64
        }
    }
    pub fn new_with_year_month(y: u32, m: i32) -> Date {
        Date::of_day(Date::year_of(y), m as i64, 1)
    }
    pub fn new_with_year_month_day(y: u32, m: i32, d: i32) -> Date {
        Date::of_day(Date::year_of(y), m as i64, d as i64)
    }
    pub fn new_with_year_month_day_hr(y: u32, m: i32, d: i32, h: i32) -> Date {
        Date(JsValue(Repr::Date(Date::new_with_year_month_day(y, m, d).ms() + h as i64 * 3_600_000)))
    }
    pub fn utc(y: f64, m: f64) -> f64 {
        Date::of_day(y as i64, m as i64, 1).ms() as f64
    }
    pub fn set_full_year(&self, _: u32) -> f64 {
        unimplemented!()
    }
    pub fn get_time(&self) -> f64 {
        self.ms() as f64
    }
    pub fn value_of(&self) -> f64 {
        self.ms() as f64
    }
    pub fn get_utc_full_year(&self) -> u32 {
        civil(self.ms().div_euclid(DAY)).0 as u32
    }
    pub fn get_utc_month(&self) -> u32 {
        civil(self.ms().div_euclid(DAY)).1 as u32
    }
    pub fn get_utc_date(&self) -> u32 {
        civil(self.ms().div_euclid(DAY)).2 as u32
    }
    pub fn get_full_year(&self) -> u32 {
        self.get_utc_full_year()
    }
    pub fn get_month(&self) -> u32 {
        self.get_utc_month()
    }
    pub fn get_date(&self) -> u32 {
        self.get_utc_date()
    }
}
