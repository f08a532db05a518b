use crate::sim::{with, Ev, Kind};
use crate::types::*;
use std::time::{Duration, SystemTime};

/// What is handed to the module is its own from then on.
#[allow(clippy::redundant_clone)]
fn owned<T: Clone>(v: Result<T, Status>) -> Result<T, Status> {
    v.map(|v| v.clone())
}

pub fn log(level: LogLevel, message: &str) -> Result<(), Status> {
    with(|h| h.log(level, message));
    Ok(())
}

pub fn get_log_level() -> Result<LogLevel, Status> {
    with(|h| Ok(h.log_level))
}

pub fn get_current_time() -> Result<SystemTime, Status> {
    Ok(SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000))
}

pub fn set_tick_period(period: Duration) -> Result<(), Status> {
    with(|h| {
        h.fault(Kind::TickPeriod, "")?;
        h.tick_period = Some(period);
        h.push(Ev::TickPeriod(period));
        Ok(())
    })
}

pub fn get_buffer(t: BufferType, start: usize, max_size: usize) -> Result<Option<Bytes>, Status> {
    owned(with(|h| h.get_buffer(t, start, max_size)))
}

pub fn get_map(t: MapType) -> Result<Vec<(String, String)>, Status> {
    owned(with(|h| h.get_map(t)))
}

pub fn get_map_value(t: MapType, key: &str) -> Result<Option<String>, Status> {
    owned(with(|h| h.get_map_value(t, key)))
}

pub fn set_map(t: MapType, map: Vec<(&str, &str)>) -> Result<(), Status> {
    with(|h| h.set_map(t, map.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()))
}

pub fn set_map_value(t: MapType, key: &str, value: Option<&str>) -> Result<(), Status> {
    with(|h| {
        let mut m = h.peek_map(t).ok_or(Status::BadArgument)?;
        m.retain(|(k, _)| !k.eq_ignore_ascii_case(key));
        if let Some(v) = value {
            m.push((key.to_string(), v.to_string()));
        }
        h.set_map(t, m)
    })
}

pub fn add_map_value(t: MapType, key: &str, value: &str) -> Result<(), Status> {
    with(|h| {
        let mut m = h.peek_map(t).ok_or(Status::BadArgument)?;
        m.push((key.to_string(), value.to_string()));
        h.set_map(t, m)
    })
}

pub fn get_property(path: Vec<&str>) -> Result<Option<Bytes>, Status> {
    owned(with(|h| h.get_property(&path)))
}

pub fn set_property(path: Vec<&str>, value: Option<&[u8]>) -> Result<(), Status> {
    with(|h| h.set_property(&path, value))
}

pub fn define_metric(_t: MetricType, name: &str) -> Result<u32, Status> {
    with(|h| {
        h.fault(Kind::DefineMetric, name)?;
        Ok(h.metric_id(name))
    })
}

pub fn increment_metric(id: u32, offset: i64) -> Result<(), Status> {
    with(|h| {
        h.fault(Kind::Metric, "")?;
        h.metric_inc(id, offset)
    })
}

pub fn dispatch_grpc_call(
    upstream: &str,
    service: &str,
    method: &str,
    metadata: Vec<(&str, &[u8])>,
    message: Option<&[u8]>,
    timeout: Duration,
) -> Result<u32, Status> {
    with(|h| h.dispatch(upstream, service, method, metadata, message, timeout))
}

pub fn cancel_grpc_call(token: u32) -> Result<(), Status> {
    with(|h| {
        h.push(Ev::Cancel(token));
        h.tokens.remove(&token);
        Ok(())
    })
}

pub fn send_http_response(status: u32, headers: Vec<(&str, &str)>, body: Option<&[u8]>) -> Result<(), Status> {
    with(|h| h.send_reply(status, headers, body))
}

pub fn resume_http_request() -> Result<(), Status> {
    with(|h| {
        h.fault(Kind::Resume, "request")?;
        h.resume(false);
        Ok(())
    })
}

pub fn resume_http_response() -> Result<(), Status> {
    with(|h| {
        h.fault(Kind::Resume, "response")?;
        h.resume(true);
        Ok(())
    })
}

pub fn get_map_bytes(t: MapType) -> Result<Vec<(String, Bytes)>, Status> {
    Ok(get_map(t)?.into_iter().map(|(k, v)| (k, v.into_bytes())).collect())
}

pub fn set_map_bytes(t: MapType, map: Vec<(&str, &[u8])>) -> Result<(), Status> {
    with(|h| h.set_map(t, map.iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v).into_owned())).collect()))
}

pub fn get_map_value_bytes(t: MapType, key: &str) -> Result<Option<Bytes>, Status> {
    Ok(get_map_value(t, key)?.map(String::into_bytes))
}

pub fn remove_map_value(t: MapType, key: &str) -> Result<(), Status> {
    set_map_value(t, key, None)
}

pub fn set_map_value_bytes(t: MapType, key: &str, value: Option<&[u8]>) -> Result<(), Status> {
    let v = value.map(|v| String::from_utf8_lossy(v).into_owned());
    set_map_value(t, key, v.as_deref())
}

pub fn add_map_value_bytes(t: MapType, key: &str, value: &[u8]) -> Result<(), Status> {
    add_map_value(t, key, &String::from_utf8_lossy(value))
}

pub fn record_metric(id: u32, value: u64) -> Result<(), Status> {
    with(|h| {
        h.fault(Kind::Metric, "")?;
        let now = h.metrics.get(id as usize).map(|m| m.1).ok_or(Status::NotFound)?;
        h.metric_inc(id, value as i64 - now)
    })
}

pub fn get_metric(id: u32) -> Result<u64, Status> {
    with(|h| h.metrics.get(id as usize).map(|m| m.1 as u64).ok_or(Status::NotFound))
}
