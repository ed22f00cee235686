//! Stand-in for roam: everything that waits for the network or the clock becomes an ask, which the harness answers.
pub use facet_postcard;
pub use roam_macros_standin::service;
pub struct Context;

pub mod sim {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context as Cx, Poll, Waker};

    pub type Task = Pin<Box<dyn Future<Output = ()>>>;
    pub trait Dispatch { fn call(&self, method: &str, bytes: &[u8]) -> Task; }
    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for Error {}

    #[derive(Clone, Debug)]
    pub struct Ask { pub id: u64, pub kind: &'static str, pub conn: u64, pub what: String, pub bytes: Vec<u8> }
    #[derive(Default)]
    struct Sim { tasks: Vec<Task>, asks: Vec<(Ask, Option<Result<(), Error>>)>, inbox: VecDeque<(u64, String, Vec<u8>)>, next: u64 }
    thread_local! { static SIM: RefCell<Sim> = RefCell::default(); }

    struct Asking(u64);
    impl Future for Asking {
        type Output = Result<(), Error>;
        fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Self::Output> {
            SIM.with_borrow_mut(|s| match s.asks.iter_mut().find(|a| a.0.id == self.0) {
                Some((_, r @ Some(_))) => Poll::Ready(r.take().unwrap()),
                Some(_) => Poll::Pending,
                None => Poll::Ready(Err(Error("gone".into()))),
            })
        }
    }
    impl Drop for Asking { fn drop(&mut self) { let _ = SIM.try_with(|s| if let Ok(mut s) = s.try_borrow_mut() { s.asks.retain(|a| a.0.id != self.0) }); } }
    fn fresh() -> u64 { SIM.with_borrow_mut(|s| { s.next += 1; s.next }) }
    pub fn ask(kind: &'static str, conn: u64, what: String, bytes: Vec<u8>) -> impl Future<Output = Result<(), Error>> {
        let id = fresh();
        SIM.with_borrow_mut(|s| s.asks.push((Ask { id, kind, conn, what, bytes }, None)));
        Asking(id)
    }
    pub fn connection() -> u64 { fresh() }
    pub fn spawn(t: Task) { SIM.with_borrow_mut(|s| s.tasks.push(t)) }
    /// a connection's end for calls to the other side
    #[derive(Clone)]
    pub struct Handle(pub u64);
    impl Handle {
        pub async fn call<T: facet::Facet>(&self, method: &'static str, arg: &T) -> Result<(), Error> { ask("call", self.0, method.into(), facet_postcard::to_vec(arg).unwrap()).await }
    }
    /// serves calls from the other side, in order, until the connection ends
    pub async fn serve(conn: u64, d: impl Dispatch) -> Result<(), Error> {
        let mut end = Box::pin(ask("serve", conn, String::new(), vec![]));
        loop {
            let m = SIM.with_borrow_mut(|s| { let i = s.inbox.iter().position(|m| m.0 == conn)?; s.inbox.remove(i) });
            if let Some((_, m, b)) = m { d.call(&m, &b).await; continue }
            if let Poll::Ready(r) = Future::poll(end.as_mut(), &mut Cx::from_waker(Waker::noop())) { return r }
            let mut once = false;
            std::future::poll_fn(|_| if once { Poll::Ready(()) } else { once = true; Poll::Pending }).await;
        }
    }

    // what the harness does
    pub fn reset() { let old = SIM.with_borrow_mut(std::mem::take); SIM.with_borrow_mut(|s| s.next = old.next); drop(old) }
    pub fn asks() -> Vec<Ask> { SIM.with_borrow(|s| s.asks.iter().map(|a| a.0.clone()).collect()) }
    pub fn answer(id: u64, r: Result<(), Error>) { SIM.with_borrow_mut(|s| if let Some(a) = s.asks.iter_mut().find(|a| a.0.id == id) { a.1 = Some(r) }) }
    pub fn send(conn: u64, method: &str, bytes: Vec<u8>) { SIM.with_borrow_mut(|s| s.inbox.push_back((conn, method.into(), bytes))) }
    /// runs every task as far as it goes
    pub fn turn() {
        for _ in 0..8 {
            let now = SIM.with_borrow_mut(|s| std::mem::take(&mut s.tasks));
            let mut later = vec![];
            for mut t in now { if t.as_mut().poll(&mut Cx::from_waker(Waker::noop())).is_pending() { later.push(t) } }
            SIM.with_borrow_mut(|s| { later.append(&mut s.tasks); s.tasks = later });
        }
    }
}
