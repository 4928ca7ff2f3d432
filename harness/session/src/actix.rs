//! A deterministic actor system of one thread: messages are handled at once, futures run until they wait for the world,
//! and the script decides which answer comes next, and when a timer fires.
use std::any::{Any, TypeId, type_name};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll, Waker};
use std::time::Duration;

type Task = Pin<Box<dyn Future<Output = ()>>>;
type Timer = Box<dyn FnOnce()>;

#[derive(Default)]
pub struct System {
    registry: HashMap<TypeId, Box<dyn Any>>,
    pub tasks: Vec<(&'static str, usize, Task)>,
    serial: usize,
    pub timers: Vec<(&'static str, Timer)>,
}
thread_local! { pub static SYSTEM: RefCell<System> = RefCell::default(); pub static RUNNING: RefCell<(&'static str, usize)> = const { RefCell::new(("", 0)) }; }

pub fn short<A>() -> &'static str {
    type_name::<A>().rsplit("::").next().unwrap()
}
/// Run whatever can run.
pub fn settle() {
    loop {
        let tasks = SYSTEM.with(|s| std::mem::take(&mut s.borrow_mut().tasks));
        let (mut left, mut done) = (vec![], false);
        // what was waited for last comes first; one that has stopped waits for nothing
        for (owner, id, mut t) in tasks.into_iter().rev() {
            if STOPPED.with(|s| *s.borrow()) {
                continue;
            }
            RUNNING.with(|n| *n.borrow_mut() = (owner, id));
            match t.as_mut().poll(&mut Cx::from_waker(Waker::noop())) {
                Poll::Ready(()) => done = true,
                Poll::Pending => left.push((owner, id, t)),
            }
        }
        let more = SYSTEM.with(|s| {
            let mut s = s.borrow_mut();
            let more = !s.tasks.is_empty();
            left.reverse();
            left.append(&mut s.tasks);
            s.tasks = left;
            more
        });
        if !more && !done {
            return;
        }
    }
}

pub enum Running {
    Stop,
    Continue,
}
pub trait Actor: Sized + 'static {
    type Context;
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn stopping(&mut self, _ctx: &mut Self::Context) -> Running {
        Running::Stop
    }
    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        let a = Addr(Rc::new(RefCell::new(self)));
        a.0.borrow_mut().started(&mut Context(a.clone()));
        a
    }
}
pub trait Message: 'static {
    type Result: 'static;
}
pub type BoxFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub struct ResponseFuture<T>(pub BoxFuture<T>);
pub trait MessageResponse<T> {
    fn answer(self) -> BoxFuture<T>;
}
impl<T: 'static> MessageResponse<T> for T {
    fn answer(self) -> BoxFuture<T> {
        Box::pin(std::future::ready(self))
    }
}
impl<T: 'static> MessageResponse<T> for ResponseFuture<T> {
    fn answer(self) -> BoxFuture<T> {
        self.0
    }
}
pub trait Handler<M: Message>: Actor {
    type Result: MessageResponse<M::Result>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}
#[derive(Debug)]
pub struct MailboxError;
impl std::fmt::Display for MailboxError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mailbox closed")
    }
}
pub struct Addr<A>(pub Rc<RefCell<A>>);
impl<A> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr(self.0.clone())
    }
}
thread_local! { pub static UNREACHABLE: RefCell<bool> = const { RefCell::new(false) }; }
impl<A: Actor<Context = Context<A>>> Addr<A> {
    pub fn send<M: Message>(&self, msg: M) -> BoxFuture<Result<M::Result, MailboxError>>
    where
        A: Handler<M>,
    {
        let answer = self.0.borrow_mut().handle(msg, &mut Context(self.clone())).answer();
        Box::pin(async move {
            let r = answer.await;
            // the one who answers says that there was none
            if UNREACHABLE.with(|u| u.replace(false)) { Err(MailboxError) } else { Ok(r) }
        })
    }
    pub fn do_send<M: Message>(&self, msg: M)
    where
        A: Handler<M>,
    {
        let me = self.clone();
        let answer = me.0.borrow_mut().handle(msg, &mut Context(self.clone())).answer();
        spawn(short::<A>(), Box::pin(async move {
            answer.await;
        }));
    }
    pub fn try_send<M: Message>(&self, msg: M) -> Result<(), MailboxError>
    where
        A: Handler<M>,
    {
        self.do_send(msg);
        Ok(())
    }
}
fn spawn(owner: &'static str, t: Task) {
    SYSTEM.with(|s| {
        let mut s = s.borrow_mut();
        s.serial += 1;
        let id = s.serial;
        s.tasks.push((owner, id, t));
    });
}
pub trait Supervised {}
pub trait SystemService: Actor<Context = Context<Self>> + Supervised + Default {
    fn from_registry() -> Addr<Self> {
        if let Some(a) = SYSTEM.with(|s| s.borrow().registry.get(&TypeId::of::<Self>()).map(|a| a.downcast_ref::<Addr<Self>>().unwrap().clone())) {
            return a;
        }
        let a = Self::default().start();
        register(a.clone());
        a
    }
}
pub fn register<A: 'static>(a: Addr<A>) {
    SYSTEM.with(|s| s.borrow_mut().registry.insert(TypeId::of::<A>(), Box::new(a)));
}
pub struct Context<A>(Addr<A>);
pub trait AsyncContext<A: Actor> {}
impl<A: Actor<Context = Context<A>>> AsyncContext<A> for Context<A> {}
pub struct SpawnHandle;
impl<A: Actor<Context = Context<A>>> Context<A> {
    pub fn spawn<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) -> SpawnHandle {
        spawn(short::<A>(), run(f, self.0.clone()));
        SpawnHandle
    }
    pub fn wait<F: ActorFuture<A, Output = ()> + 'static>(&mut self, f: F) {
        self.spawn(f);
    }
    pub fn run_later<F: FnOnce(&mut A, &mut Context<A>) + 'static>(&mut self, _period: Duration, f: F) -> SpawnHandle {
        let a = self.0.clone();
        SYSTEM.with(|s| s.borrow_mut().timers.push((short::<A>(), Box::new(move || f(&mut a.0.borrow_mut(), &mut Context(a.clone()))))));
        SpawnHandle
    }
    pub fn run_interval<F: FnMut(&mut A, &mut Context<A>) + 'static>(&mut self, period: Duration, mut f: F) -> SpawnHandle {
        self.run_later(period, move |a, c| {
            f(a, c);
            c.run_interval(period, f);
        })
    }
    pub fn notify<M: Message>(&mut self, msg: M)
    where
        A: Handler<M>,
        M: 'static,
    {
        let a = self.0.clone();
        spawn(short::<A>(), Box::pin(async move { a.do_send(msg) }));
    }
    pub fn address(&self) -> Addr<A> {
        self.0.clone()
    }
}
impl<A> Context<A> {
    pub fn of(a: &Addr<A>) -> Self {
        Context(a.clone())
    }
}
thread_local! { pub static STOPPED: RefCell<bool> = const { RefCell::new(false) }; }
pub trait ActorContext {
    fn stop(&mut self);
}
impl<A> ActorContext for Context<A> {
    fn stop(&mut self) {
        STOPPED.with(|s| *s.borrow_mut() = true)
    }
}
pub trait StreamHandler<I>: Actor {
    fn handle(&mut self, item: I, ctx: &mut Self::Context);
    fn finished(&mut self, ctx: &mut Self::Context)
    where
        Self::Context: ActorContext,
    {
        ctx.stop()
    }
}
/// Methods of [`ActorFutureExt`] here.
pub trait ContextFutureSpawner {}

fn run<A: Actor<Context = Context<A>>, F: ActorFuture<A, Output = ()> + 'static>(f: F, a: Addr<A>) -> Task {
    let mut f = Box::pin(f);
    Box::pin(std::future::poll_fn(move |cx| f.as_mut().poll(&a, cx)))
}
/// A future of an actor, which is touched only between the waits.
pub trait ActorFuture<A> {
    type Output;
    fn poll(self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<Self::Output>;
}
pub struct Wrap<F, A>(Pin<Box<F>>, PhantomData<A>);
impl<F, A> Unpin for Wrap<F, A> {}
impl<A, F: Future> ActorFuture<A> for Wrap<F, A> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, _a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}
pub trait WrapFuture<A>: Future + Sized {
    fn into_actor(self, _a: &A) -> Wrap<Self, A> {
        Wrap(Box::pin(self), PhantomData)
    }
}
impl<A, F: Future> WrapFuture<A> for F {}
pub struct Map<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for Map<F, G> {}
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A>, T, G: FnOnce(F::Output, &mut A, &mut Context<A>) -> T> ActorFuture<A> for Map<F, G> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<T> {
        self.0.as_mut().poll(a, cx).map(|x| self.1.take().unwrap()(x, &mut a.0.borrow_mut(), &mut Context(a.clone())))
    }
}
pub struct Then<F, G, H>(Pin<Box<F>>, Option<G>, Option<Pin<Box<H>>>);
impl<F, G, H> Unpin for Then<F, G, H> {}
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A>, H: ActorFuture<A>, G: FnOnce(F::Output, &mut A, &mut Context<A>) -> H> ActorFuture<A> for Then<F, G, H> {
    type Output = H::Output;
    fn poll(mut self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<H::Output> {
        if self.2.is_none() {
            match self.0.as_mut().poll(a, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(x) => {
                    let g = self.1.take().unwrap();
                    self.2 = Some(Box::pin(g(x, &mut a.0.borrow_mut(), &mut Context(a.clone()))));
                }
            }
        }
        self.2.as_mut().unwrap().as_mut().poll(a, cx)
    }
}
pub trait ActorFutureExt<A: Actor<Context = Context<A>>>: ActorFuture<A> + Sized {
    fn map<T, G: FnOnce(Self::Output, &mut A, &mut Context<A>) -> T>(self, g: G) -> Map<Self, G> {
        Map(Box::pin(self), Some(g))
    }
    fn then<H: ActorFuture<A>, G: FnOnce(Self::Output, &mut A, &mut Context<A>) -> H>(self, g: G) -> Then<Self, G, H> {
        Then(Box::pin(self), Some(g), None)
    }
    fn spawn(self, ctx: &mut Context<A>)
    where
        Self: ActorFuture<A, Output = ()> + 'static,
    {
        ctx.spawn(self);
    }
    fn wait(self, ctx: &mut Context<A>)
    where
        Self: ActorFuture<A, Output = ()> + 'static,
    {
        ctx.wait(self);
    }
}
impl<A: Actor<Context = Context<A>>, F: ActorFuture<A>> ActorFutureExt<A> for F {}

pub struct MapErr<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for MapErr<F, G> {}
impl<A: Actor<Context = Context<A>>, T, E, D, F: ActorFuture<A, Output = Result<T, E>>, G: FnOnce(E, &mut A, &mut Context<A>) -> D> ActorFuture<A> for MapErr<F, G> {
    type Output = Result<T, D>;
    fn poll(mut self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<Result<T, D>> {
        self.0.as_mut().poll(a, cx).map(|x| x.map_err(|e| self.1.take().unwrap()(e, &mut a.0.borrow_mut(), &mut Context(a.clone()))))
    }
}
pub struct MapOk<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for MapOk<F, G> {}
impl<A: Actor<Context = Context<A>>, T, E, U, F: ActorFuture<A, Output = Result<T, E>>, G: FnOnce(T, &mut A, &mut Context<A>) -> U> ActorFuture<A> for MapOk<F, G> {
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<Result<U, E>> {
        self.0.as_mut().poll(a, cx).map(|x| x.map(|e| self.1.take().unwrap()(e, &mut a.0.borrow_mut(), &mut Context(a.clone()))))
    }
}
pub struct AndThen<F, G, H>(Pin<Box<F>>, Option<G>, Option<Pin<Box<H>>>);
impl<F, G, H> Unpin for AndThen<F, G, H> {}
impl<A: Actor<Context = Context<A>>, T, E, U, F: ActorFuture<A, Output = Result<T, E>>, H: ActorFuture<A, Output = Result<U, E>>, G: FnOnce(T, &mut A, &mut Context<A>) -> H> ActorFuture<A>
    for AndThen<F, G, H>
{
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<Result<U, E>> {
        if self.2.is_none() {
            match self.0.as_mut().poll(a, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(x)) => {
                    let g = self.1.take().unwrap();
                    self.2 = Some(Box::pin(g(x, &mut a.0.borrow_mut(), &mut Context(a.clone()))));
                }
            }
        }
        self.2.as_mut().unwrap().as_mut().poll(a, cx)
    }
}
pub trait ActorTryFutureExt<A: Actor<Context = Context<A>>, T, E>: ActorFuture<A, Output = Result<T, E>> + Sized {
    fn map_err<D, G: FnOnce(E, &mut A, &mut Context<A>) -> D>(self, g: G) -> MapErr<Self, G> {
        MapErr(Box::pin(self), Some(g))
    }
    fn map_ok<U, G: FnOnce(T, &mut A, &mut Context<A>) -> U>(self, g: G) -> MapOk<Self, G> {
        MapOk(Box::pin(self), Some(g))
    }
    fn and_then<U, H: ActorFuture<A, Output = Result<U, E>>, G: FnOnce(T, &mut A, &mut Context<A>) -> H>(self, g: G) -> AndThen<Self, G, H> {
        AndThen(Box::pin(self), Some(g), None)
    }
}
impl<A: Actor<Context = Context<A>>, T, E, F: ActorFuture<A, Output = Result<T, E>>> ActorTryFutureExt<A, T, E> for F {}
impl<A: Actor<Context = Context<A>>, L: ActorFuture<A>, R: ActorFuture<A, Output = L::Output>> ActorFuture<A> for futures::future::Either<L, R> {
    type Output = L::Output;
    fn poll(self: Pin<&mut Self>, a: &Addr<A>, cx: &mut Cx<'_>) -> Poll<L::Output> {
        match self.as_pin_mut() {
            futures::future::Either::Left(x) => x.poll(a, cx),
            futures::future::Either::Right(x) => x.poll(a, cx),
        }
    }
}
pub mod io {
    use tokio_util::codec::Encoder;
    pub trait WriteHandler<E> {}
    /// What is written to the peer goes through the codec into a list of bytes.
    pub struct FramedWrite<I, T, U>(pub U, std::marker::PhantomData<(I, T)>);
    impl<T, U: Encoder<bytes::BytesMut>> FramedWrite<bytes::BytesMut, T, U> {
        pub fn of(u: U) -> Self {
            FramedWrite(u, std::marker::PhantomData)
        }
        pub fn write(&mut self, item: bytes::BytesMut) {
            crate::WRITTEN.with(|w| {
                if self.0.encode(item, &mut w.borrow_mut()).is_err() {
                    panic!("it cannot be encoded")
                }
            })
        }
    }
}

pub mod fut {
    use super::*;
    pub struct Ready<T>(Option<T>);
    impl<T> Unpin for Ready<T> {}
    impl<A, T> ActorFuture<A> for Ready<T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, _a: &Addr<A>, _cx: &mut Cx<'_>) -> Poll<T> {
            Poll::Ready(self.0.take().unwrap())
        }
    }
    pub fn ready<T>(t: T) -> Ready<T> {
        Ready(Some(t))
    }
    pub fn ok<T, E>(t: T) -> Ready<Result<T, E>> {
        ready(Ok(t))
    }
    pub fn err<T, E>(e: E) -> Ready<Result<T, E>> {
        ready(Err(e))
    }
    pub fn wrap_future<F: Future, A>(f: F) -> Wrap<F, A> {
        Wrap(Box::pin(f), PhantomData)
    }
}
pub mod prelude {
    pub use super::{Actor, ActorFuture, ActorFutureExt, Addr, AsyncContext, Context, Handler, MailboxError, Message, ResponseFuture, Supervised, SystemService, WrapFuture, fut};
}
