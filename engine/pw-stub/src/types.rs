use crate::traits::*;

pub type NewRootContext = fn(context_id: u32) -> Box<dyn RootContext>;
pub type NewStreamContext = fn(context_id: u32, root_context_id: u32) -> Box<dyn StreamContext>;
pub type NewHttpContext = fn(context_id: u32, root_context_id: u32) -> Box<dyn HttpContext>;
pub type Bytes = Vec<u8>;

macro_rules! enums {
    ($($(#[$m:meta])* $name:ident { $($v:ident = $n:expr),* $(,)? })*) => {
        $(#[repr(u32)]
        #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
        $(#[$m])*
        pub enum $name { $($v = $n),* })*
    };
}

enums! {
    LogLevel { Trace = 0, Debug = 1, Info = 2, Warn = 3, Error = 4, Critical = 5 }
    #[non_exhaustive]
    Action { Continue = 0, Pause = 1 }
    #[non_exhaustive]
    Status { Ok = 0, NotFound = 1, BadArgument = 2, SerializationFailure = 3, ParseFailure = 4, Empty = 7, CasMismatch = 8, InternalFailure = 10 }
    #[non_exhaustive]
    ContextType { HttpContext = 0, StreamContext = 1 }
    #[non_exhaustive]
    BufferType { HttpRequestBody = 0, HttpResponseBody = 1, DownstreamData = 2, UpstreamData = 3, HttpCallResponseBody = 4, GrpcReceiveBuffer = 5, VmConfiguration = 6, PluginConfiguration = 7, CallData = 8 }
    #[non_exhaustive]
    MapType { HttpRequestHeaders = 0, HttpRequestTrailers = 1, HttpResponseHeaders = 2, HttpResponseTrailers = 3, GrpcReceiveInitialMetadata = 4, GrpcReceiveTrailingMetadata = 5, HttpCallResponseHeaders = 6, HttpCallResponseTrailers = 7 }
    #[non_exhaustive]
    MetricType { Counter = 0, Gauge = 1, Histogram = 2 }
}
