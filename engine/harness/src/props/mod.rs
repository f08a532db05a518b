mod counters;
mod fetch;
mod findings;
mod attrs;
mod bodies;
mod headers;
pub mod kit;
mod legacy;
mod logging;
mod memory;
mod messages;
mod pipeline;
mod refused;
mod reload;
mod routes;
mod scale;
mod soup;
mod strings;
mod same;
mod saved;
mod terminal;
mod tracing;
mod whole;
pub use attrs::rfc3339;
use crate::prop::Prop;

pub fn all() -> Vec<&'static Prop> {
    use pipeline as p;
    vec![&p::G01, &p::G02, &p::G03, &p::G04, &p::G05, &routes::G06, &p::G07, &p::G08, &legacy::G09, &legacy::G10, &headers::G11, &bodies::G12, &bodies::G13, &attrs::G14, &reload::G15, &fetch::G16, &messages::G17, &p::G18, &tracing::G19, &whole::G20, &strings::G21, &whole::G22, &tracing::G23, &memory::G24, &logging::G25, &terminal::G26, &scale::G27, &saved::G28, &whole::G29]
}
