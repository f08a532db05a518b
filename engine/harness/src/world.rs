//! One module instance: root context, stream contexts, and the calls Envoy makes into them.
use proxy_wasm::sim::{self, Ev, Rec, Stream};
use proxy_wasm::traits::{HttpContext, RootContext};
use proxy_wasm::types::Action;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const ROOT: u32 = 1;

thread_local! {
    static STARTED: Cell<bool> = const { Cell::new(false) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn start_module() {
    if !STARTED.with(|s| s.replace(true)) {
        wasm_shim::verif_start();
        // keep the module from printing through its own hook while remembering the site
        std::panic::set_hook(Box::new(|info| {
            let text = format!("{info}");
            if !INSIDE.with(|i| i.get()) {
                eprintln!("harness: {text}");
            }
            LAST_PANIC.with(|p| *p.borrow_mut() = text);
        }));
        log::set_max_level(log::LevelFilter::Warn);
    }
}

pub struct World {
    pub root: Box<dyn RootContext>,
    pub https: BTreeMap<u32, Box<dyn HttpContext>>,
    next_ctx: u32,
    pub panicked: Option<String>,
    /// what the module said when its VM was started: a proxy does not go on without
    started: bool,
    /// whether to add up the processor time the module takes
    pub timed: bool,
    pub spent: u64,
}

/// Processor time this thread has taken, in nanoseconds.
pub fn cpu() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

impl World {
    pub fn new() -> Self {
        start_module();
        sim::with(|h| {
            h.reset();
            h.active = ROOT;
        });
        let mk = proxy_wasm::registered_root().expect("module registered a root context");
        let mut w = World { root: mk(ROOT), https: BTreeMap::new(), next_ctx: 2, panicked: None, started: false, timed: false, spent: 0 };
        w.call(ROOT, "vm_start", |w| {
            w.started = w.root.on_vm_start(0);
            None
        });
        w
    }

    pub fn mark() -> usize {
        sim::with(|h| h.events.len())
    }
    pub fn since(mark: usize) -> Vec<Rec> {
        sim::with(|h| h.events[mark..].to_vec())
    }

    fn call(&mut self, ctx: u32, what: &'static str, f: impl FnOnce(&mut World) -> Option<Action>) -> Option<Action> {
        sim::with(|h| {
            h.active = ctx;
            h.push(Ev::Enter(what));
        });
        INSIDE.with(|i| i.set(true));
        let from = if self.timed { cpu() } else { 0 };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _module = sim::Running::new(true);
            f(self)
        }));
        if self.timed {
            self.spent += cpu() - from;
        }
        INSIDE.with(|i| i.set(false));
        match r {
            Ok(a) => {
                sim::with(|h| {
                    h.active = ctx;
                    h.push(Ev::Exit(what, a));
                });
                a
            }
            Err(_) => {
                let text = LAST_PANIC.with(|p| p.borrow().clone());
                self.panicked = Some(format!("{what}: {text}"));
                sim::with(|h| {
                    h.active = ctx;
                    h.push(Ev::Panic(text));
                });
                None
            }
        }
    }

    pub fn configure(&mut self, json: &str) -> bool {
        sim::with(|h| h.plugin_config = Some(json.as_bytes().to_vec()));
        let mut ok = false;
        self.call(ROOT, "configure", |w| {
            ok = w.root.on_configure(json.len()) && w.started;
            None
        });
        ok
    }

    /// The host calls on_configure but has nothing to hand over.
    pub fn configure_without(&mut self) -> bool {
        let mut ok = false;
        self.call(ROOT, "configure", |w| {
            ok = w.root.on_configure(0);
            None
        });
        ok
    }

    pub fn tick(&mut self) {
        self.call(ROOT, "tick", |w| {
            w.root.on_tick();
            None
        });
    }

    pub fn new_stream(&mut self, s: Stream) -> u32 {
        let id = self.next_ctx;
        self.next_ctx += 1;
        sim::with(|h| {
            h.streams.insert(id, s);
        });
        self.call(id, "create", |w| {
            if let Some(c) = w.root.create_http_context(id) {
                w.https.insert(id, c);
            }
            None
        });
        id
    }

    fn http(&mut self, id: u32, what: &'static str, f: impl FnOnce(&mut dyn HttpContext) -> Action) -> Action {
        self.call(id, what, |w| {
            let c = w.https.get_mut(&id)?;
            Some(f(c.as_mut()))
        })
        .unwrap_or(Action::Continue)
    }

    pub fn request_headers(&mut self, id: u32, eos: bool) -> Action {
        let n = sim::with(|h| h.streams[&id].req_headers.as_ref().map_or(0, |v| v.len()));
        self.http(id, "request_headers", |c| c.on_http_request_headers(n, eos))
    }
    pub fn request_body(&mut self, id: u32, size: usize, eos: bool) -> Action {
        self.http(id, "request_body", |c| c.on_http_request_body(size, eos))
    }
    pub fn response_headers(&mut self, id: u32, eos: bool) -> Action {
        let n = sim::with(|h| h.streams[&id].resp_headers.as_ref().map_or(0, |v| v.len()));
        self.http(id, "response_headers", |c| c.on_http_response_headers(n, eos))
    }
    pub fn response_body(&mut self, id: u32, size: usize, eos: bool) -> Action {
        self.http(id, "response_body", |c| c.on_http_response_body(size, eos))
    }

    pub fn request_trailers(&mut self, id: u32) -> Action {
        self.http(id, "request_trailers", |c| c.on_http_request_trailers(1))
    }
    pub fn response_trailers(&mut self, id: u32) -> Action {
        self.http(id, "response_trailers", |c| c.on_http_response_trailers(1))
    }

    /// Answer an outstanding gRPC call. `body` None with status 0 means an empty message.
    pub fn grpc_reply(&mut self, token: u32, status: u32, body: Option<Vec<u8>>) {
        let Some(t) = sim::with(|h| h.tokens.remove(&token)) else {
            return;
        };
        let size = body.as_ref().map_or(0, |b| b.len());
        sim::with(|h| {
            h.active = t.ctx;
            h.grpc_buffer = body;
            h.push(Ev::GrpcReply { token, status, size });
        });
        self.call(t.ctx, "grpc_reply", |w| {
            if t.ctx == ROOT {
                w.root.on_grpc_call_response(token, status, size);
            } else if let Some(c) = w.https.get_mut(&t.ctx) {
                c.on_grpc_call_response(token, status, size);
            }
            None
        });
        sim::with(|h| h.grpc_buffer = None);
    }

    /// An answer as the host would never deliver it: to a stream that may not have asked.
    pub fn raw_reply(&mut self, id: u32, token: u32, status: u32, body: Option<Vec<u8>>) {
        let size = body.as_ref().map_or(0, |b| b.len());
        sim::with(|h| h.grpc_buffer = body);
        self.call(id, "grpc_reply", |w| {
            if let Some(c) = w.https.get_mut(&id) {
                c.on_grpc_call_response(token, status, size);
            }
            None
        });
        sim::with(|h| h.grpc_buffer = None);
    }

    pub fn log_done(&mut self, id: u32) {
        self.call(id, "done", |w| {
            if let Some(c) = w.https.get_mut(&id) {
                c.on_log();
            }
            None
        });
    }

    /// Envoy destroys the stream: outstanding calls are cancelled without a callback.
    pub fn destroy(&mut self, id: u32) {
        sim::with(|h| h.tokens.retain(|_, t| t.ctx != id));
        self.call(id, "destroy", |w| {
            w.https.remove(&id);
            None
        });
        sim::with(|h| {
            h.streams.remove(&id);
        });
    }

    pub fn outstanding(&self, id: u32) -> Vec<u32> {
        sim::with(|h| h.tokens.iter().filter(|(_, t)| t.ctx == id).map(|(k, _)| *k).collect())
    }
}
