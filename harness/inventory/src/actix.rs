//! A deterministic actor system of one thread: a message is handled when its answer is first awaited, and what is
//! awaited is awaited to the end, since nothing here waits for the world.
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll};

thread_local! { pub static REGISTRY: RefCell<HashMap<TypeId, Box<dyn Any>>> = RefCell::default(); }
thread_local! { pub static STOPPED: RefCell<Option<i32>> = const { RefCell::new(None) }; }

pub trait Actor: Sized + Unpin + 'static {
    type Context;
    fn started(&mut self, _ctx: &mut Self::Context) {}
    fn start(self) -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>>,
    {
        let a = Addr(Rc::new(RefCell::new(self)));
        a.0.borrow_mut().started(&mut Context(a.clone()));
        a
    }
    fn start_default() -> Addr<Self>
    where
        Self: Actor<Context = Context<Self>> + Default,
    {
        Self::default().start()
    }
}
pub trait Message {
    type Result: 'static;
}
pub type ResponseFuture<T> = Pin<Box<dyn Future<Output = T>>>;
pub type ResponseActFuture<A, T> = Pin<Box<dyn ActorFuture<A, Output = T>>>;
pub trait MessageResponse<A: Actor, M: Message> {
    fn answer(self, a: &Addr<A>) -> ResponseFuture<M::Result>;
}
impl<A: Actor, M: Message<Result = Result<T, E>>, T: 'static, E: 'static> MessageResponse<A, M> for Result<T, E> {
    fn answer(self, _a: &Addr<A>) -> ResponseFuture<M::Result> {
        Box::pin(std::future::ready(self))
    }
}
impl<A: Actor, M: Message<Result = T>, T: 'static> MessageResponse<A, M> for ResponseFuture<T> {
    fn answer(self, _a: &Addr<A>) -> ResponseFuture<T> {
        self
    }
}
impl<A: Actor<Context = Context<A>>, M: Message<Result = T>, T: 'static> MessageResponse<A, M> for ResponseActFuture<A, T> {
    fn answer(mut self, a: &Addr<A>) -> ResponseFuture<T> {
        let a = a.clone();
        Box::pin(std::future::poll_fn(move |cx| {
            let mut ctx = Context(a.clone());
            self.as_mut().poll(&mut a.0.borrow_mut(), &mut ctx, cx)
        }))
    }
}
pub trait Handler<M: Message>: Actor {
    type Result: MessageResponse<Self, M>;
    fn handle(&mut self, msg: M, ctx: &mut Self::Context) -> Self::Result;
}
#[derive(Debug)]
pub struct MailboxError;
impl std::fmt::Display for MailboxError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mailbox closed")
    }
}
impl std::error::Error for MailboxError {}
pub struct Addr<A>(pub Rc<RefCell<A>>);
impl<A> Clone for Addr<A> {
    fn clone(&self) -> Self {
        Addr(self.0.clone())
    }
}
pub type Request<M> = ResponseFuture<Result<<M as Message>::Result, MailboxError>>;
impl<A: Actor<Context = Context<A>>> Addr<A> {
    pub fn send<M: Message + 'static>(&self, msg: M) -> Request<M>
    where
        A: Handler<M>,
    {
        let me = self.clone();
        Box::pin(async move {
            let r = me.0.borrow_mut().handle(msg, &mut Context(me.clone()));
            Ok(r.answer(&me).await)
        })
    }
}
pub trait Supervised {}
pub trait SystemService: Actor<Context = Context<Self>> + Supervised + Default {
    fn from_registry() -> Addr<Self> {
        if let Some(a) = REGISTRY.with(|s| s.borrow().get(&TypeId::of::<Self>()).map(|a| a.downcast_ref::<Addr<Self>>().unwrap().clone())) {
            return a;
        }
        let a = Self::default().start();
        SystemRegistry::set(a.clone());
        a
    }
}
pub struct SystemRegistry;
impl SystemRegistry {
    pub fn set<A: 'static>(a: Addr<A>) {
        REGISTRY.with(|s| s.borrow_mut().insert(TypeId::of::<A>(), Box::new(a)));
    }
}
pub struct Context<A>(pub Addr<A>);
pub type SyncContext<A> = Context<A>;
pub struct SyncArbiter;
impl SyncArbiter {
    pub fn start<A: Actor<Context = Context<A>>>(_threads: usize, f: impl Fn() -> A) -> Addr<A> {
        f().start()
    }
}
pub struct System;
impl System {
    pub fn current() -> System {
        System
    }
    pub fn try_current() -> Option<System> {
        Some(System)
    }
    pub fn stop_with_code(&self, code: i32) {
        STOPPED.with(|s| *s.borrow_mut() = Some(code))
    }
}

/// A future of an actor, which is touched only between the waits.
pub trait ActorFuture<A: Actor> {
    type Output;
    fn poll(self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Self::Output>;
}
impl<A: Actor, T> ActorFuture<A> for Pin<Box<dyn ActorFuture<A, Output = T>>> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<T> {
        (*self).as_mut().poll(a, ctx, cx)
    }
}
impl<A: Actor, F: ActorFuture<A>> ActorFuture<A> for Pin<Box<F>> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<F::Output> {
        (*self).as_mut().poll(a, ctx, cx)
    }
}
pub struct Wrap<F, A>(Pin<Box<F>>, std::marker::PhantomData<A>);
impl<F, A> Unpin for Wrap<F, A> {}
impl<A: Actor, F: Future> ActorFuture<A> for Wrap<F, A> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, _a: &mut A, _ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<F::Output> {
        self.0.as_mut().poll(cx)
    }
}
pub trait WrapFuture<A>: Future + Sized {
    fn into_actor(self, _a: &A) -> Wrap<Self, A> {
        Wrap(Box::pin(self), std::marker::PhantomData)
    }
}
impl<A, F: Future> WrapFuture<A> for F {}
pub struct Map<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for Map<F, G> {}
impl<A: Actor, F: ActorFuture<A>, T, G: FnOnce(F::Output, &mut A, &mut A::Context) -> T> ActorFuture<A> for Map<F, G> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<T> {
        match self.0.as_mut().poll(a, ctx, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(x) => Poll::Ready(self.1.take().unwrap()(x, a, ctx)),
        }
    }
}
pub struct Then<F, G, H>(Pin<Box<F>>, Option<G>, Option<Pin<Box<H>>>);
impl<F, G, H> Unpin for Then<F, G, H> {}
impl<A: Actor, F: ActorFuture<A>, H: ActorFuture<A>, G: FnOnce(F::Output, &mut A, &mut A::Context) -> H> ActorFuture<A> for Then<F, G, H> {
    type Output = H::Output;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<H::Output> {
        if self.2.is_none() {
            match self.0.as_mut().poll(a, ctx, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(x) => {
                    let g = self.1.take().unwrap();
                    self.2 = Some(Box::pin(g(x, a, ctx)));
                }
            }
        }
        self.2.as_mut().unwrap().as_mut().poll(a, ctx, cx)
    }
}
pub trait ActorFutureExt<A: Actor>: ActorFuture<A> + Sized {
    fn map<T, G: FnOnce(Self::Output, &mut A, &mut A::Context) -> T>(self, g: G) -> Map<Self, G> {
        Map(Box::pin(self), Some(g))
    }
    fn then<H: ActorFuture<A>, G: FnOnce(Self::Output, &mut A, &mut A::Context) -> H>(self, g: G) -> Then<Self, G, H> {
        Then(Box::pin(self), Some(g), None)
    }
    /// nothing here waits for the world
    fn wait(self, ctx: &mut Context<A>)
    where
        A: Actor<Context = Context<A>>,
        Self: ActorFuture<A, Output = ()> + 'static,
    {
        let a = ctx.0.clone();
        let f = Rc::new(RefCell::new(Box::pin(self)));
        LATER.with(|l| {
            l.borrow_mut().push(Box::new(move || {
                let r = f.borrow_mut().as_mut().poll(&mut a.0.borrow_mut(), &mut Context(a.clone()), &mut Cx::from_waker(std::task::Waker::noop()));
                assert!(r.is_ready());
            }))
        });
    }
}
thread_local! { pub static LATER: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::default(); }
impl<A: Actor, F: ActorFuture<A>> ActorFutureExt<A> for F {}

pub trait ActorTryFutureExt<A: Actor, T, E>: ActorFuture<A, Output = Result<T, E>> + Sized {
    fn map_err<D, G: FnOnce(E, &mut A, &mut A::Context) -> D>(self, g: G) -> MapErr<Self, G> {
        MapErr(Box::pin(self), Some(g))
    }
    fn map_ok<U, G: FnOnce(T, &mut A, &mut A::Context) -> U>(self, g: G) -> MapOk<Self, G> {
        MapOk(Box::pin(self), Some(g))
    }
    fn and_then<U, H: ActorFuture<A, Output = Result<U, E>>, G: FnOnce(T, &mut A, &mut A::Context) -> H>(self, g: G) -> AndThen<Self, G, H> {
        AndThen(Box::pin(self), Some(g), None)
    }
}
impl<A: Actor, T, E, F: ActorFuture<A, Output = Result<T, E>>> ActorTryFutureExt<A, T, E> for F {}
pub struct MapErr<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for MapErr<F, G> {}
impl<A: Actor, T, E, D, F: ActorFuture<A, Output = Result<T, E>>, G: FnOnce(E, &mut A, &mut A::Context) -> D> ActorFuture<A> for MapErr<F, G> {
    type Output = Result<T, D>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Result<T, D>> {
        match self.0.as_mut().poll(a, ctx, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(x)) => Poll::Ready(Ok(x)),
            Poll::Ready(Err(e)) => Poll::Ready(Err(self.1.take().unwrap()(e, a, ctx))),
        }
    }
}
pub struct MapOk<F, G>(Pin<Box<F>>, Option<G>);
impl<F, G> Unpin for MapOk<F, G> {}
impl<A: Actor, T, E, U, F: ActorFuture<A, Output = Result<T, E>>, G: FnOnce(T, &mut A, &mut A::Context) -> U> ActorFuture<A> for MapOk<F, G> {
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Result<U, E>> {
        match self.0.as_mut().poll(a, ctx, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(x)) => Poll::Ready(Ok(self.1.take().unwrap()(x, a, ctx))),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        }
    }
}
pub struct AndThen<F, G, H>(Pin<Box<F>>, Option<G>, Option<Pin<Box<H>>>);
impl<F, G, H> Unpin for AndThen<F, G, H> {}
impl<A: Actor, T, E, U, F: ActorFuture<A, Output = Result<T, E>>, H: ActorFuture<A, Output = Result<U, E>>, G: FnOnce(T, &mut A, &mut A::Context) -> H> ActorFuture<A> for AndThen<F, G, H> {
    type Output = Result<U, E>;
    fn poll(mut self: Pin<&mut Self>, a: &mut A, ctx: &mut A::Context, cx: &mut Cx<'_>) -> Poll<Result<U, E>> {
        if self.2.is_none() {
            match self.0.as_mut().poll(a, ctx, cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(x)) => {
                    let g = self.1.take().unwrap();
                    self.2 = Some(Box::pin(g(x, a, ctx)));
                }
            }
        }
        self.2.as_mut().unwrap().as_mut().poll(a, ctx, cx)
    }
}
pub mod fut {
    use super::*;
    pub struct Ready<T>(Option<T>);
    impl<T> Unpin for Ready<T> {}
    impl<A: Actor, T> ActorFuture<A> for Ready<T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, _a: &mut A, _ctx: &mut A::Context, _cx: &mut Cx<'_>) -> Poll<T> {
            Poll::Ready(self.0.take().unwrap())
        }
    }
    pub fn ready<T>(t: T) -> Ready<T> {
        Ready(Some(t))
    }
    pub fn ok<T, E>(t: T) -> Ready<Result<T, E>> {
        ready(Ok(t))
    }
    pub fn err<T, E>(e: E) -> Ready<Result<T, E>> {
        ready(Err(e))
    }
    pub fn wrap_future<F: Future, A>(f: F) -> Wrap<F, A> {
        Wrap(Box::pin(f), std::marker::PhantomData)
    }
}
pub mod prelude {
    pub use super::{
        Actor, ActorFuture, ActorFutureExt, ActorTryFutureExt, Addr, Context, Handler, MailboxError, Message, ResponseActFuture, ResponseFuture, Supervised, SyncArbiter, SyncContext, System, SystemService, WrapFuture, fut,
    };
}
