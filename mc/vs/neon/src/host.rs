//! The other end: calls of exported functions in JSON, the table of objects,
//! and the tasks which are under way.
use crate::js::{JsObject, JsValue, Value};
use crate::scope::RootScope;
use crate::task::Task;
use crate::vm::{Arguments, Call, Module, Native, Throw, VmResult};
use serde_json::{json, Value as Json};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Default)]
struct Tables {
    objects: Vec<Rc<dyn Any>>,
    tasks: Vec<(u64, Box<dyn FnOnce() -> VmResult<JsValue>>)>,
}

thread_local! {
    static TABLES: RefCell<Tables> = RefCell::new(Tables::default());
}

/// Forgets the objects and tasks of this thread.
pub fn reset() {
    let old = TABLES.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(old)
}

pub fn exports(main: fn(&mut Module) -> VmResult<()>) -> BTreeMap<String, Native> {
    let mut m = Module::default();
    main(&mut m).unwrap();
    m.exports.into_iter().map(|(k, v)| (k, v.0.unwrap())).collect()
}

pub(crate) fn with_call<R>(values: Vec<JsValue>, f: impl for<'a> FnOnce(Call<'a>) -> VmResult<R>) -> VmResult<R> {
    let mut scope = RootScope { marker: PhantomData };
    // the scope outlives the call, and nothing of it gets out: handles own what they refer to
    let scope: &mut RootScope = unsafe { &mut *(&mut scope as *mut RootScope) };
    f(Call { scope, arguments: Arguments { values, this: PhantomData::<&JsObject> } })
}

fn decode(v: &Json) -> JsValue {
    if let Some(j) = v.get("j") {
        return JsValue::Json(j.clone());
    }
    if let Some(id) = v.get("o").and_then(|it| it.as_u64()) {
        return TABLES.with(|t| JsValue::Object(t.borrow().objects[id as usize].clone()));
    }
    if let Some(id) = v.get("f").and_then(|it| it.as_u64()) {
        return JsValue::Function(id);
    }
    JsValue::Undefined
}

fn encode(v: JsValue) -> Json {
    match v {
        JsValue::Json(j) => json!({ "j": j }),
        JsValue::Object(it) => TABLES.with(|t| {
            let objects = &mut t.borrow_mut().objects;
            objects.push(it);
            json!({ "o": objects.len() - 1 })
        }),
        JsValue::Function(id) => json!({ "f": id }),
        JsValue::Undefined => json!({}),
    }
}

fn reply(r: std::thread::Result<VmResult<JsValue>>) -> Json {
    match r {
        Ok(Ok(v)) => encode(v),
        Ok(Err(Throw(message))) => json!({ "throw": message }),
        Err(p) => {
            let message = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|it| it.to_string()))
                .unwrap_or_default();
            json!({ "throw": format!("panic: {}", message) })
        }
    }
}

/// One call from JavaScript: `args` and the result are `{"j": JSON}`, `{"o":
/// object}`, `{"f": function}`, `{}` (undefined) or `{"throw": message}`.
pub fn call(f: Native, args: &[Json]) -> Json {
    let values = args.iter().map(decode).collect();
    let mut result = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        with_call(values, |call| {
            result = Some(f(call)?.to_js());
            Ok(())
        })
    }));
    reply(r.map(|it| it.map(|()| result.unwrap())))
}

pub(crate) fn schedule<T: Task>(task: T, callback: u64) {
    let work = move || {
        let (task, result) = std::thread::spawn(move || {
            let result = task.perform();
            (task, result)
        })
        .join()
        .map_err(|_| Throw("panic: in a task".to_string()))?;
        let mut scope = RootScope { marker: PhantomData };
        let it = task.complete(&mut scope, result)?;
        Ok(it.to_js())
    };
    TABLES.with(|t| t.borrow_mut().tasks.push((callback, Box::new(work))))
}

/// Runs the oldest task: the callback and what it gets.
pub fn run_task() -> Option<(u64, Json)> {
    let (callback, work) = TABLES.with(|t| {
        let tasks = &mut t.borrow_mut().tasks;
        if tasks.is_empty() {
            None
        } else {
            Some(tasks.remove(0))
        }
    })?;
    Some((callback, reply(catch_unwind(AssertUnwindSafe(work)))))
}
