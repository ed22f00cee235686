//! Stand-in for roam-websocket.
use roam::sim::{self, Error};
pub struct WsTransport(u64);
impl WsTransport {
    pub async fn connect(url: &str) -> Result<WsTransport, Error> {
        let c = sim::connection();
        sim::ask("connect", c, url.into(), vec![]).await?;
        Ok(WsTransport(c))
    }
}
impl roam_session::Transport for WsTransport { fn connection(&self) -> u64 { self.0 } }
