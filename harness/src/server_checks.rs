//! Checks of the server in the simulation.

use crate::attack::*;
use crate::hostile::*;
use crate::run::{CaseResult, Check, Ctx};
use crate::work::*;

const ASSUME: &[&str] = &[
    "the simulated transports, processes and callbacks honour the AsyncRead/AsyncWrite/Future contracts",
    "random choices of futures::select! are not controlled, only sampled",
];


fn c14(ctx: &mut Ctx) -> CaseResult {
    workload(ctx, "C14", &Knobs { rough: 15, coarse: 3, ..Knobs::default() })
}
fn c15(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 200 == 0 {
        return bulk(ctx, "C15");
    }
    workload(ctx, "C15", &Knobs { rough: 8, proc_rough: 13, big: 6, out_max: 4000, in_max: 60_000, coarse: 6, refuse: 1, ..Knobs::default() })
}
fn c16(ctx: &mut Ctx) -> CaseResult {
    workload(ctx, "C16", &Knobs { rough: 8, proc_rough: 12, big: 5, out_max: 40_000, in_max: 3000, coarse: 6, early_close: 1, ..Knobs::default() })
}
fn c17(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 100 == 9 {
        return bulk(ctx, "C17");
    }
    workload(ctx, "C17", &Knobs { rough: 6, early_close: 7, big: 1, sessions: (2, 10), coarse: 2, ..Knobs::default() })
}
fn c18(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 100 == 9 {
        return bulk(ctx, "C18");
    }
    workload(ctx, "C18", &Knobs { rough: 4, extras: 8, refuse: 5, sessions: (2, 12), early_close: 5, open_other: 6, shell: 4, big: 1, coarse: 2, ..Knobs::default() })
}
fn c21(ctx: &mut Ctx) -> CaseResult {
    if ctx.case % 100 == 0 {
        return bulk(ctx, "C21");
    }
    workload(ctx, "C21", &Knobs { rough: 5, tight: 12, conns: (1, 2), big: 6, early_close: 1, coarse: 6, ..Knobs::default() })
}

macro_rules! check {
    ($id:literal, $f:ident, $cases:expr, $rule:expr, $ev:literal, $needs:expr) => {
        Check { id: $id, run: $f, cases: $cases, rule: $rule, evaluations: $ev, needs: $needs, level: "exploration", assumptions: ASSUME }
    };
}

const WORLD: &str = "one case is a simulated world: the real server with 1-3 concurrent connections of an independent client, random channels, \
    processes, windows, transports (fragmentation, back-pressure, delays) and schedule; monitors judge every packet, callback and stream; \
    distinct = distinct schedules plus distinct (message order, bytes in, bytes out, schedule) of finished channels";

pub static CHECKS: &[Check] = &[
    check!("C06", c06, (40_000, 600_000),
        "core: genuine packets with bits flipped, replayed, reordered, under other keys given to the cipher; live: the same done to the \
         stream of a connection before and after login, followed by genuine packets; distinct = distinct forged packets and schedules",
        "forgeries", &["core_forgeries", "live_forgeries_after_login", "live_forgeries_before_login", "genuine_packets_before_forgery_seen"]),
    check!("C08", c08, (8000, 150_000),
        "handshakes with random identifications, algorithm lists, guesses, keys (shared secrets with 0, 1 and 2 leading zero bytes and with \
         the top bit are steered), each judged by an independent client and followed by a signed login; distinct = distinct session identifiers and schedules",
        "handshakes",
        &["exchange_hashes", "session_identifiers_compared", "secret_with_leading_zero", "secret_with_two_leading_zeros", "secret_with_top_bit", "short_signature_integer", "signature_integer_with_sign_byte"]),
    check!("C09", c09, (40_000, 600_000),
        "handshakes with one thing wrong (algorithm not offered, wrong size or low order key, damaged, missing, reordered or misframed message), \
         and acceptable ones; distinct = distinct transcripts and schedules",
        "refused", &["accepted", "wrong_guesses_ignored", "refused_algorithms", "refused_keys", "refused_new_keys", "refused_surplus"]),
    check!("C10", c10, (30_000, 500_000),
        "identification lines of all lengths and bytes after lines to be skipped, in random fragments; other versions and lines that are too long; \
         distinct = distinct bytes sent and schedules",
        "identifications_accepted", &["lines_of_255_bytes", "preambles_skipped", "long_preambles", "long_lines_refused", "versions_refused"]),
    check!("C11", c11, (10_000, 200_000),
        "worlds with a constant random generator, where every padding byte and cookie must be that constant, and worlds with several connections \
         sending identical bytes, whose keys, cookies and session identifiers must all differ, and whose padding must not repeat; distinct = distinct (cookie, key) and schedules",
        "padding_bytes", &["pairs_compared", "constant_worlds", "padding_compared"]),
    check!("C12", c12, (25_000, 500_000),
        "concurrent connections making sequences of acceptable, refused, unsupported and premature requests, one at a time or pipelined; answers \
         and callbacks compared with what was sent; distinct = distinct requests and schedules",
        "answers", &["premature_clients", "logins", "late_logins", "callbacks_compared", "pipelined_answers", "messages_to_be_ignored"]),
    check!("C13", c13, (25_000, 500_000),
        "signed requests and queries with keys, signatures and names of any size up to a packet, and damaged ones; the data given to the application \
         is compared with an independent RFC 4252 encoding; distinct = distinct requests and schedules",
        "signed_requests_compared", &["queries_compared", "logins", "attempts: surplus bytes after the key", "attempts: signature of another algorithm"]),
    check!("C14", c14, (8000, 150_000), WORLD, "packets_received", &["channels_complete", "early_closes", "bytes_through_buffered_writers"]),
    check!("C15", c15, (8000, 150_000), WORLD, "stdin_bytes", &["channels_complete", "inputs_complete", "bytes_through_buffered_writers"]),
    check!("C16", c16, (8000, 150_000), WORLD, "stdout_bytes", &["channels_complete", "stderr_bytes", "eofs"]),
    check!("C17", c17, (8000, 150_000), WORLD, "closes", &["channels_complete", "exit_statuses", "eofs", "early_closes"]),
    check!("C18", c18, (8000, 150_000), WORLD, "replies", &["channels_complete", "channels_opened", "opens_refused", "channels_without_process", "crowds"]),
    check!("C19", c19, (12_000, 200_000),
        "worlds with 1-4 hostile connections (garbage, damaged and unexpected messages at every stage, transports that fail at random points, \
         clients that vanish or stop reading) next to and followed by clients that behave, which must be served correctly; distinct = distinct schedules",
        "hostile_connections", &["hostile_logins", "failing_transports", "channels_complete", "hostile_connections_ended", "floods"]),
    check!("C20", c20, (10_000, 150_000),
        "worlds run to a state where nothing can happen while clients, processes or callbacks are stalled: everything else must be finished; then \
         they are released and all must finish; polls of the server at rest are counted; distinct = distinct schedules",
        "stalled_at_rest",
        &["stalled_reader", "stalled_sender", "stalled_authentication", "process_not_reading", "window_exhausted", "process_idle", "process_exits_late", "worlds_resumed", "idle_states", "many_stalled", "many_stuck_channels", "floods", "answers_beside_endless_output"]),
    check!("C21", c21, (8000, 150_000), WORLD, "windows_exhausted", &["channels_complete", "window_grants", "window_adjustments_received", "full_size_packets", "bulk_transfers"]),
];
