//! Stand-in for wasm-bindgen-futures: tasks run when the harness says so.
pub fn spawn_local(f: impl std::future::Future<Output = ()> + 'static) { roam::sim::spawn(Box::pin(f)) }
