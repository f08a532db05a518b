//! Action pipeline: lockstep against the reference interpreter, one profile and one set of
//! relevant mismatches per property.
use crate::flight::*;
use crate::gen::Prof;
use crate::lock::*;
use crate::prop::*;
use crate::rng::Rng;

pub const ASSUME: &[&str] = &[
    "the host behaves as Envoy's proxy-wasm ABI does (simulated in engine/pw-stub)",
    "the module runs natively on one thread per worker, as it does in one wasm VM",
    "generated configurations stay clear of the regions listed in known_findings.json",
];

fn saw(f: &Flight, prefix: &str) -> bool {
    f.model.as_ref().is_some_and(|m| m.notes.iter().any(|n| n.starts_with(prefix)))
}
fn cause(f: &Flight) -> &'static str {
    f.model.as_ref().map_or("", |m| m.cause)
}

fn g01(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(25) {
        return super::legacy::failures(rng, cov, true);
    }
    let prof = Prof { deny_mode: 85, ans_fail: 35, refuse: 18, broken: 15, nest: 30, w_grpc: 75, w_deny: 4, w_fail: 2, ..Prof::default() };
    let mask = REPLY_MISSING | REPLY_CONTENT | SINGLE | HOLD;
    lockstep(rng, &Run { prof, mask, max_streams: 2 }, cov, &|f, b| match b.kind {
        REPLY_MISSING | REPLY_CONTENT => cause(f) == "failure",
        _ => saw(f, "fail_closed"),
    })
}

pub static G01: Prop = Prop {
    id: "G01",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 9000,
    thorough: 60000,
    case: g01,
    probes: &[],
    need: &["fail_closed", "fail_closed_nested", "fail_closed_requeued", "grpc_status_error", "reply_garbage", "reply_empty", "dispatch_refused", "message_error", "predicate_error", "legacy_fail_closed"],
    assumptions: ASSUME,
};

fn g02(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(25) {
        return super::legacy::failures(rng, cov, false);
    }
    let prof = Prof { deny_mode: 12, ans_fail: 45, refuse: 20, broken: 15, nest: 30, w_grpc: 65, w_headers: 20, w_store: 10, w_deny: 4, w_fail: 2, ..Prof::default() };
    let mask = REPLY_EXTRA | REPLY_CONTENT | EFFECTS | HEADERS | PROPS | HOLD | RELEASE;
    lockstep(rng, &Run { prof, mask, max_streams: 2 }, cov, &|f, _| saw(f, "fail_open"))
}

pub static G02: Prop = Prop {
    id: "G02",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 9000,
    thorough: 60000,
    case: g02,
    probes: &[],
    need: &["fail_open", "fail_open_requeued", "grpc_status_error", "reply_garbage", "reply_empty", "dispatch_refused", "message_error", "predicate_error", "legacy_fail_open"],
    assumptions: ASSUME,
};

fn g03(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let prof = Prof { guard: 60, w_grpc: 75, w_deny: 5, w_fail: 2, nest: 35, ans_fail: 15, refuse: 6, deny_mode: 30, ..Prof::default() };
    lockstep(rng, &Run { prof, mask: HOLD | RELEASE, max_streams: 2 }, cov, &|_, _| true)
}

pub static G03: Prop = Prop {
    id: "G03",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 9000,
    thorough: 60000,
    case: g03,
    probes: &[],
    need: &["reply_ok", "predicate_pending", "held_by_guard", "unguarded_in_flight", "response_end_held"],
    assumptions: ASSUME,
};

fn g04(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(15) {
        return super::refused::case(rng, cov);
    }
    let prof = Prof { w_deny: 30, w_fail: 16, w_grpc: 50, stored: 45, ans_over: 45, ans_fail: 8, refuse: 4, header_id: 50, ..Prof::default() };
    let mask = REPLIES | SINGLE;
    lockstep(rng, &Run { prof, mask, max_streams: 2 }, cov, &|f, b| b.kind != REPLY_MISSING || cause(f) != "failure")
}

pub static G04: Prop = Prop {
    id: "G04",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 10000,
    thorough: 60000,
    case: g04,
    probes: &[],
    need: &["denied", "fail_action", "fail_closed", "terminated_with_outstanding", "refused_reply_replaced", "refused_reply_final", "unsendable_status", "denied_by_a_non_terminal_action"],
    assumptions: ASSUME,
};

fn g05(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let prof = Prof { w_grpc: 60, w_store: 20, guard: 55, seq: 35, resp_json: 30, body: 25, refuse: 20, ans_fail: 30, nest: 35, many: 10, ..Prof::default() };
    lockstep(rng, &Run { prof, mask: RELEASE | PANIC, max_streams: 3 }, cov, &|_, _| true)
}

pub static G05: Prop = Prop {
    id: "G05",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 9000,
    thorough: 60000,
    case: g05,
    probes: &[],
    need: &["reply_ok", "task_failed", "response_end_held", "terminated_with_outstanding", "response_header_deferred", "held_by_guard"],
    assumptions: ASSUME,
};

fn g07(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let prof = Prof { seq: 45, many: 15, w_grpc: 55, w_headers: 20, w_store: 20, w_deny: 4, w_fail: 6, nest: 30, ans_fail: 10, refuse: 8, deny_mode: 25, export: 70, ..Prof::default() };
    lockstep(rng, &Run { prof, mask: EFFECTS | HEADERS | PROPS | SINGLE, max_streams: 2 }, cov, &|_, _| true)
}

pub static G07: Prop = Prop {
    id: "G07",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 9000,
    thorough: 60000,
    case: g07,
    probes: &[],
    need: &["service_called_twice", "fenced", "fenced_by_a_nested_call", "reply_ok", "stored", "headers_set", "response_header_deferred", "task_failed"],
    assumptions: ASSUME,
};

fn g08(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    let mut prof = Prof { pred_true: 15, cross: 25, cross_top: 3, stored: 40, nest: 40, w_store: 25, w_headers: 20, w_grpc: 50, broken: 5, ans_fail: 8, refuse: 3, export: 70, ..Prof::default() };
    if rng.pct(20) {
        // ten actions and more, looking at each other's replies
        prof = Prof { many: 100, seq: 50, pred_true: 50, cross: 40, cross_top: 50, w_headers: 60, w_store: 0, w_deny: 0, w_fail: 0, broken: 0, stored: 0, deny_mode: 0, ans_fail: 3, refuse: 2, ans_over: 10, body: 0, resp_json: 0, ..Prof::default() };
    }
    lockstep(rng, &Run { prof, mask: EFFECTS | HEADERS | PROPS | REPLIES, max_streams: 2 }, cov, &|_, _| true)
}

pub static G08: Prop = Prop {
    id: "G08",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 12000,
    thorough: 60000,
    case: g08,
    probes: &[],
    need: &["predicate_false", "predicate_error", "predicate_pending", "reply_ok", "stored", "headers_set", "denied"],
    assumptions: ASSUME,
};

fn g18(rng: &mut Rng, cov: &mut Cov) -> Result<(), Violation> {
    if rng.pct(15) {
        return super::counters::configs_and_build_errors(rng, cov);
    }
    let prof = Prof { ans_fail: 30, refuse: 15, w_fail: 8, w_deny: 12, local_cb: 70, ..Prof::default() };
    lockstep(rng, &Run { prof, mask: METRICS, max_streams: 3 }, cov, &|_, _| true)
}

pub static G18: Prop = Prop {
    id: "G18",
    level: "exploration",
    rule: "a case counts as distinct by the set of pipeline states its streams went through, the number of steps and the number of local replies",
    quick: 9000,
    thorough: 60000,
    case: g18,
    probes: &[],
    need: &["denied", "fail_action", "fail_closed", "fail_open", "reply_ok", "config_loaded", "config_rejected", "build_error", "miss"],
    assumptions: ASSUME,
};
