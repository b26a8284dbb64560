//! Driving the dataflow plugins directly
use dataflow_rs::engine::message::{Change, Message};
use dataflow_rs::engine::{AsyncFunctionHandler, FunctionConfig};
use datalogic_rs::DataLogic;
use serde_json::Value;
use std::sync::Arc;

pub type Outcome = Result<(usize, Vec<Change>), dataflow_rs::engine::error::DataflowError>;
pub fn handler(name: &str) -> Option<Box<dyn AsyncFunctionHandler + Send + Sync>> {
    mx_message::plugin::register_mx_functions().into_iter().find(|f| f.0 == name).map(|f| f.1)
}
pub fn custom(name: &str, input: Value) -> FunctionConfig {
    FunctionConfig::Custom { name: name.to_string(), input }
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}
/// one call of a plugin function on a message
pub fn call(name: &str, m: &mut Message, cfg: &FunctionConfig) -> Outcome {
    let h = handler(name).expect("plugin function is registered");
    block_on(h.execute(m, cfg, Arc::new(DataLogic::new())))
}
/// the four handlers, shared by many calls and threads
pub struct Handlers(Vec<(&'static str, Box<dyn AsyncFunctionHandler + Send + Sync>)>);
impl Handlers {
    pub fn new() -> Self {
        Handlers(mx_message::plugin::register_mx_functions())
    }
}
pub fn call_with(h: &Handlers, name: &str, m: &mut Message, cfg: &FunctionConfig) -> Outcome {
    let h = &h.0.iter().find(|f| f.0 == name).expect("plugin function is registered").1;
    block_on(h.execute(m, cfg, Arc::new(DataLogic::new())))
}
/// a message with given data and payload
pub fn message(data: Value, payload: Value) -> Message {
    let mut m = Message::from_value(&payload);
    *m.data_mut() = data;
    m.invalidate_context_cache();
    m
}
/// scenario files of the repository: (message type directory, file, content)
pub fn scenarios() -> Vec<(String, String, Value)> {
    let mut out = vec![];
    let mut dirs: Vec<_> = std::fs::read_dir("/repo/test_scenarios").unwrap().flatten().map(|e| e.path()).filter(|p| p.is_dir()).collect();
    dirs.sort();
    for d in dirs {
        let mut fs: Vec<_> = std::fs::read_dir(&d).unwrap().flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|x| x == "json")).collect();
        fs.sort();
        for f in fs {
            let n = f.file_name().unwrap().to_string_lossy().to_string();
            if n == "index.json" {
                continue;
            }
            if let Some(v) = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()) {
                out.push((d.file_name().unwrap().to_string_lossy().to_string(), n, v));
            }
        }
    }
    out
}
