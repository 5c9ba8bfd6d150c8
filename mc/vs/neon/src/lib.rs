//! The stand-in for neon 0.1: the API which the native modules of the editor
//! plugins use, with the JavaScript side at the other end of a pipe. Objects
//! of native classes live in a table per thread (`host`), everything else is
//! JSON.
pub mod host;

pub mod mem {
    use std::marker::PhantomData;
    use std::ops::{Deref, DerefMut};

    pub struct Handle<'a, T> {
        value: T,
        scope: PhantomData<&'a ()>,
    }

    impl<'a, T: Clone> Clone for Handle<'a, T> {
        fn clone(&self) -> Self {
            Handle::new(self.value.clone())
        }
    }

    impl<'a, T> Handle<'a, T> {
        pub fn new(value: T) -> Handle<'a, T> {
            Handle { value, scope: PhantomData }
        }
        pub fn into_inner(self) -> T {
            self.value
        }
    }

    impl<'a, T: crate::js::Value> Handle<'a, T> {
        pub fn upcast(&self) -> Handle<'a, crate::js::JsValue> {
            Handle::new(self.value.to_js())
        }
    }

    impl<'a> Handle<'a, crate::js::JsValue> {
        pub fn check<U: crate::js::Value>(&self) -> crate::vm::JsResult<'a, U> {
            match U::of_js(&self.value) {
                Some(it) => Ok(Handle::new(it)),
                None => crate::vm::throw("TypeError: unexpected kind of value".to_string()),
            }
        }
    }

    impl<'a, T> Deref for Handle<'a, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.value
        }
    }

    impl<'a, T> DerefMut for Handle<'a, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.value
        }
    }
}

pub mod vm {
    use crate::js::{JsObject, JsValue};
    use crate::mem::Handle;
    use crate::scope::{RootScope, Scope};
    use std::marker::PhantomData;

    #[derive(Debug)]
    pub struct Throw(pub String);
    pub type VmResult<T> = Result<T, Throw>;
    pub type JsResult<'a, T> = VmResult<Handle<'a, T>>;

    pub fn throw<T>(message: String) -> VmResult<T> {
        Err(Throw(message))
    }

    pub trait This {}
    impl This for JsObject {}

    pub struct Arguments<'a, T> {
        pub(crate) values: Vec<JsValue>,
        pub(crate) this: PhantomData<&'a T>,
    }

    impl<'a, T> Arguments<'a, T> {
        pub fn len(&self) -> i32 {
            self.values.len() as i32
        }
        pub fn require<'b, S: Scope<'b>>(&self, _: &mut S, idx: i32) -> JsResult<'b, JsValue> {
            match self.values.get(idx as usize) {
                Some(v) => Ok(Handle::new(v.clone())),
                None => throw("TypeError: not enough arguments".to_string()),
            }
        }
    }

    pub struct Call<'a> {
        pub scope: &'a mut RootScope<'a>,
        pub arguments: Arguments<'a, JsObject>,
    }

    pub trait Lock {
        type Internals;
        fn grab<F, T>(&mut self, f: F) -> T
        where
            F: FnOnce(&mut Self::Internals) -> T;
    }

    impl<'a, C: crate::js::class::Class> Lock for Handle<'a, C> {
        type Internals = C::Internals;
        fn grab<F, T>(&mut self, f: F) -> T
        where
            F: FnOnce(&mut Self::Internals) -> T,
        {
            let cell = self.internals();
            let mut it = cell.borrow_mut();
            f(&mut it)
        }
    }

    pub type Native = for<'a> fn(Call<'a>) -> JsResult<'a, JsValue>;

    #[derive(Default)]
    pub struct Module {
        pub exports: std::collections::BTreeMap<String, (Option<Native>,)>,
    }

    impl Module {
        pub fn export(&mut self, name: &str, f: Native) -> VmResult<()> {
            self.exports.insert(name.to_string(), (Some(f),));
            Ok(())
        }
    }
}

pub mod scope {
    use std::marker::PhantomData;

    pub struct RootScope<'a> {
        pub(crate) marker: PhantomData<&'a ()>,
    }
    pub trait Scope<'a> {}
    impl<'a> Scope<'a> for RootScope<'a> {}
}

pub mod js {
    use crate::mem::Handle;
    use crate::scope::Scope;
    use std::any::Any;
    use std::marker::PhantomData;
    use std::rc::Rc;

    #[derive(Clone)]
    pub enum JsValue {
        Undefined,
        Json(serde_json::Value),
        Object(Rc<dyn Any>),
        Function(u64),
    }

    pub trait Value: Sized {
        fn to_js(&self) -> JsValue;
        fn of_js(v: &JsValue) -> Option<Self>;
    }

    impl Value for JsValue {
        fn to_js(&self) -> JsValue {
            self.clone()
        }
        fn of_js(v: &JsValue) -> Option<Self> {
            Some(v.clone())
        }
    }

    pub struct JsObject;

    #[derive(Clone)]
    pub struct JsString(String);

    impl JsString {
        pub fn new<'a, S: Scope<'a>>(_: &mut S, value: &str) -> Option<Handle<'a, JsString>> {
            Some(Handle::new(JsString(value.to_string())))
        }
        pub fn value(&self) -> String {
            self.0.clone()
        }
    }

    impl Value for JsString {
        fn to_js(&self) -> JsValue {
            JsValue::Json(serde_json::Value::String(self.0.clone()))
        }
        fn of_js(v: &JsValue) -> Option<Self> {
            match v {
                JsValue::Json(serde_json::Value::String(s)) => Some(JsString(s.clone())),
                _ => None,
            }
        }
    }

    #[derive(Clone)]
    pub struct JsNull;

    impl JsNull {
        pub fn new<'a>() -> Handle<'a, JsNull> {
            Handle::new(JsNull)
        }
    }

    impl Value for JsNull {
        fn to_js(&self) -> JsValue {
            JsValue::Json(serde_json::Value::Null)
        }
        fn of_js(v: &JsValue) -> Option<Self> {
            match v {
                JsValue::Json(serde_json::Value::Null) => Some(JsNull),
                _ => None,
            }
        }
    }

    pub struct JsFunction<T = JsObject> {
        pub(crate) id: u64,
        class: PhantomData<T>,
    }

    impl<T> Value for JsFunction<T> {
        fn to_js(&self) -> JsValue {
            JsValue::Function(self.id)
        }
        fn of_js(v: &JsValue) -> Option<Self> {
            match v {
                JsValue::Function(id) => Some(JsFunction { id: *id, class: PhantomData }),
                _ => None,
            }
        }
    }

    impl<C: class::Class> JsFunction<C> {
        pub fn construct<'a, S: Scope<'a>, A: Value, I>(&self, _: &mut S, args: I) -> crate::vm::JsResult<'a, C>
        where
            I: IntoIterator<Item = Handle<'a, A>>,
        {
            let values = args.into_iter().map(|it| it.to_js()).collect();
            let it = crate::host::with_call(values, C::__init)?;
            Ok(Handle::new(C::__of_internals(it)))
        }
    }

    pub mod class {
        use crate::mem::Handle;
        use crate::scope::Scope;
        use crate::vm::{Call, JsResult, VmResult};
        use std::cell::RefCell;
        use std::marker::PhantomData;
        use std::rc::Rc;

        pub trait Class: super::Value + 'static {
            type Internals: 'static;
            fn __init(call: Call) -> VmResult<Self::Internals>;
            fn __of_internals(it: Self::Internals) -> Self;
            fn internals(&self) -> Rc<RefCell<Self::Internals>>;
            fn class<'a, S: Scope<'a>>(_: &mut S) -> JsResult<'a, JsClass<Self>> {
                Ok(Handle::new(JsClass(PhantomData)))
            }
        }

        pub struct JsClass<C>(PhantomData<C>);

        impl<C: Class> JsClass<C> {
            pub fn constructor<'a, S: Scope<'a>>(&self, _: &mut S) -> JsResult<'a, super::JsFunction<C>> {
                Ok(Handle::new(super::JsFunction { id: 0, class: PhantomData }))
            }
        }
    }
}

pub mod task {
    use crate::js::{JsFunction, Value};
    use crate::mem::Handle;
    use crate::scope::Scope;
    use crate::vm::JsResult;

    pub trait Task: Send + Sized + 'static {
        type Output: Send + 'static;
        type Error: Send + 'static;
        type JsEvent: Value;

        fn perform(&self) -> Result<Self::Output, Self::Error>;
        fn complete<'a, T: Scope<'a>>(
            self,
            scope: &'a mut T,
            result: Result<Self::Output, Self::Error>,
        ) -> JsResult<Self::JsEvent>;

        /// The task runs on a thread of its own when the host says so, and
        /// its result goes to `callback`.
        fn schedule(self, callback: Handle<JsFunction>) {
            crate::host::schedule(self, callback.id)
        }
    }
}

#[macro_export]
macro_rules! declare_types {
    ($(#[$m:meta])* pub class $cls:ident for $t:ty { init($call:ident) $body:block }) => {
        pub struct $cls(::std::rc::Rc<::std::cell::RefCell<$t>>);
        $crate::__class! { $cls, $t, $call, $body }
    };
    ($(#[$m:meta])* class $cls:ident for $t:ty { init($call:ident) $body:block }) => {
        struct $cls(::std::rc::Rc<::std::cell::RefCell<$t>>);
        $crate::__class! { $cls, $t, $call, $body }
    };
}

#[macro_export]
macro_rules! __class {
    ($cls:ident, $t:ty, $call:ident, $body:block) => {
        impl $crate::js::Value for $cls {
            fn to_js(&self) -> $crate::js::JsValue {
                $crate::js::JsValue::Object(self.0.clone())
            }
            fn of_js(v: &$crate::js::JsValue) -> Option<Self> {
                match v {
                    $crate::js::JsValue::Object(it) => {
                        it.clone().downcast::<::std::cell::RefCell<$t>>().ok().map($cls)
                    }
                    _ => None,
                }
            }
        }
        impl $crate::js::class::Class for $cls {
            type Internals = $t;
            fn __init($call: $crate::vm::Call) -> $crate::vm::VmResult<$t> {
                $body
            }
            fn __of_internals(it: $t) -> Self {
                $cls(::std::rc::Rc::new(::std::cell::RefCell::new(it)))
            }
            fn internals(&self) -> ::std::rc::Rc<::std::cell::RefCell<$t>> {
                self.0.clone()
            }
        }
    };
}

#[macro_export]
macro_rules! register_module {
    ($m:ident, $body:block) => {
        pub fn __neon_main($m: &mut $crate::vm::Module) -> $crate::vm::VmResult<()> {
            $body
        }
    };
}
