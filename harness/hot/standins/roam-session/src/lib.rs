//! Stand-in for roam-session.
use roam::sim::{self, Dispatch, Error, Handle};
#[derive(Default)]
pub struct HandshakeConfig {}
pub struct Incoming;
pub struct Driver<D>(u64, D);
impl<D: Dispatch> Driver<D> { pub async fn run(self) -> Result<(), Error> { sim::serve(self.0, self.1).await } }
pub trait Transport { fn connection(&self) -> u64; }
pub async fn accept_framed<T: Transport, D: Dispatch>(t: T, _c: HandshakeConfig, d: D) -> Result<(Handle, Incoming, Driver<D>), Error> {
    sim::ask("handshake", t.connection(), String::new(), vec![]).await?;
    Ok((Handle(t.connection()), Incoming, Driver(t.connection(), d)))
}
pub mod runtime {
    pub async fn sleep(d: std::time::Duration) { let _ = roam::sim::ask("sleep", 0, d.as_micros().to_string(), vec![]).await; }
}
