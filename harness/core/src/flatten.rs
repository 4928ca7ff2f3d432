use crate::util::*;
use crate::Sut;
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use witnet_futures_utils::TryFutureExt2;

struct Inner(i64);
struct Outer(i64);
enum E {
    In(i64),
    Out(i64),
}
impl From<Inner> for E {
    fn from(x: Inner) -> E {
        E::In(x.0)
    }
}
impl From<Outer> for E {
    fn from(x: Outer) -> E {
        E::Out(x.0)
    }
}

struct Fut {
    left: i64,
    kind: String,
    payload: i64,
    polls: Arc<AtomicUsize>,
}

impl Future for Fut {
    type Output = Result<Result<i64, Inner>, Outer>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        self.polls.fetch_add(1, Ordering::SeqCst);
        if self.left > 0 {
            self.left -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(match self.kind.as_str() {
            "ok" => Ok(Ok(self.payload)),
            "inner" => Ok(Err(Inner(self.payload))),
            _ => Err(Outer(self.payload)),
        })
    }
}

#[derive(Default)]
struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

pub struct FlattenSut {
    fut: Pin<Box<dyn Future<Output = Result<i64, E>>>>,
    polls: Arc<AtomicUsize>,
    wakes: Arc<Count>,
}

impl FlattenSut {
    pub fn new(cfg: &Value) -> Self {
        let polls = Arc::new(AtomicUsize::new(0));
        let f = Fut { left: n(cfg, "pending"), kind: s(cfg, "kind"), payload: n(cfg, "payload"), polls: polls.clone() };
        FlattenSut { fut: Box::pin(f.flatten_err::<i64, Inner, Outer, E>()), polls, wakes: Default::default() }
    }
}

impl Sut for FlattenSut {
    fn step(&mut self, _op: &Value) -> Value {
        let w: Waker = self.wakes.clone().into();
        let r = self.fut.as_mut().poll(&mut Context::from_waker(&w));
        let (ready, ok, from, val) = match r {
            Poll::Pending => (false, false, "", 0),
            Poll::Ready(Ok(v)) => (true, true, "ok", v),
            Poll::Ready(Err(E::In(v))) => (true, false, "inner", v),
            Poll::Ready(Err(E::Out(v))) => (true, false, "outer", v),
        };
        json!({"ready": ready, "ok": ok, "from": from, "val": val,
               "polls": self.polls.load(Ordering::SeqCst), "wakes": self.wakes.0.load(Ordering::SeqCst)})
    }
}
