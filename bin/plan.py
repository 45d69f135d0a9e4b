"""What each check runs. runs: (flavour, driver, shards); need: counters that must be non-zero for the run to mean anything;
distinct: the kind of distinct observed behaviour that is counted as non-trivial."""

def P(driver, need, distinct, rule, flavours=("asan",), sh=8):
    return dict(runs=[(f, driver, sh) for f in flavours], need=need, distinct=distinct, rule=rule, level="exploration")

MB_CLIENT = ("seeded histories of requests (all functions, boundary and malformed), connection faults, reply mutations, segmentation "
             "and timing against the real Modbus component in virtual time; non-trivial = distinct event history (hash of delivered events and outcomes)")
MB_SERVER = ("seeded histories of connections, valid/invalid/hostile frames, segmentation, application answers (right, wrong, late, oversized), "
             "accept/timer/link faults against the real Modbus component; non-trivial = distinct event history")
UC = "every type of the codec (95 instantiations), all field combinations, boundary numbers, sizes 0..capacity; "
UA = "the real transport, secure channel and service components on one or three reactors in virtual time, reference clients that encode and parse on their own; "
RX = "real Reactor/ReactorManager with real threads, loopback sockets, timerfds; "

PLAN = {
 "R01": P("reactor", ["sent", "delivered", "sent_oversize", "sent_unhandled", "sent_unknown_component", "overloads", "duplicate_components", "floods", "flood_dropped"], "delivery_histories",
          RX + "1-6 sender threads, 1-3 reactors, messages of every size up to the limit, throwing handlers, overload; non-trivial = distinct per-sender delivery counts", ("asan", "tsan")),
 "R02": P("reactor", ["storm_sent", "storm_delivered", "storm_logged", "explicit_stops", "teardowns"], "storm_histories",
          RX + "senders, loggers and timers race with stop and destruction; non-trivial = distinct (delivered, forwarded, shape) outcome", ("tsan", "asan")),
 "R03": P("reactor", ["timer_fires", "timer_stops", "timer_restarts", "timer_releases_armed", "due_together", "deadlines_checked", "long_intervals"], "fire_orders",
          RX + "up to 32 timers started, stopped, restarted, released from the loop and from handlers, many due in one loop turn; non-trivial = distinct order of firing"),
 "R04": P("reactor", ["ends_read_directly", "addresses", "bytes_in", "bytes_out", "send_refused", "refused", "reused_in_handler", "dropped_in_handler"], "streams",
          RX + "streams with random segmentation, stalled/closing/resetting peers, link reuse inside event batches; non-trivial = distinct (bytes in, bytes out, ending)"),
 "R05": P("reactor", ["operations", "operations_failed", "recycled_used", "fault_socket", "fault_epoll_add", "fault_timerfd_create", "fault_accept", "closes_watched"], "operation_histories",
          RX + "create/connect/listen/accept/drop histories with injected system call failures; non-trivial = distinct operation/outcome history"),
 "R06": P("logger", ["lines", "messages_enabled", "messages_disabled", "concurrent_runs"], "line_orders",
          "1-6 threads log messages of all tasks, levels and sizes through the macro and directly, under random level settings and time zones; every line of the output is parsed and matched; non-trivial = distinct interleaving of the threads' lines", ("asan", "tsan")),
 "M01": P("modbus", ["requests", "client_responses", "faults_connect", "faults_reset"], "histories", MB_CLIENT),
 "M02": P("modbus", ["frames_sent", "requests"], "histories", MB_CLIENT),
 "M03": P("modbus", ["outcome_success", "outcome_exception", "outcome_error", "stray_bytes"], "histories", MB_CLIENT),
 "M04": P("modbus", ["server_requests_forwarded", "replies", "wrong_answers", "late_answers"], "histories", MB_SERVER),
 "M05": P("modbus", ["frames_invalid", "capacity_probes", "victim_exchanges", "faults_accept"], "histories", MB_SERVER),
 "M06": P("modbus", ["recoveries", "faults_connect", "faults_reset", "connects"], "histories", MB_CLIENT),
 "M07": P("modbus", ["items_ok", "items_rejected", "releases", "releases_uninitialised"], "histories",
          "seeded init/configure/release histories with resource limits and busy addresses; non-trivial = distinct request/outcome history"),
 "U01": P("codec", ["values_encoded", "values_decoded", "values_compared", "small_domain_values"], "values", UC + "round trips of sequences of values behind other data into fresh and used variables; non-trivial = distinct value"),
 "U02": P("codec", ["encodings_compared", "alternative_encodings", "canonical_encodings", "small_domain_values"], "encodings",
          UC + "encodings compared byte by byte with an independent encoder written from the specification, and all permitted encodings of it decoded; non-trivial = distinct encoding"),
 "U03": P("codec", ["hostile_accepted", "hostile_rejected", "truncations", "unknown_forms", "encode_fits", "encode_too_big", "accepted_reencoded"], "hostile_inputs",
          UC + "random, mutated, truncated, deeply nested input and values of every size around the capacity; non-trivial = distinct input"),
 "U04": P("ua", ["warm_ups", "connections", "segments", "frames_sent", "bad_first", "bad_frames", "near_types", "long_hellos", "forwarded", "answers"], "histories",
          UA + "hellos and frames of all sizes split and joined at random, wrong first messages, unknown types, impossible lengths; non-trivial = distinct event history"),
 "U05": P("ua", ["warm_ups", "connections", "renewals", "bad_messages", "channels_closed", "long_channels", "forwarded"], "histories",
          UA + "open/renew/close histories with wrong, repeated, skipped and old sequence numbers, tokens and channels, also of other and ended connections, sequence wrap-around; non-trivial = distinct event history"),
 "U06": P("ua", ["warm_ups", "allowed", "denied", "takeovers", "foreign_first_activations", "reads_behind_close", "activation_races", "departures"], "histories",
          UA + "session create/activate/read/close from owning and other channels, pipelined and after departures, against a reference model; non-trivial = distinct event history"),
 "U07": P("ua", ["warm_ups", "requests", "answers", "endpoint_answers", "reads_answered", "sessions_created", "sessions_activated", "sessions_closed"], "histories",
          UA + "many clients pipelining all services, answers parsed completely, virtual wall clock; non-trivial = distinct event history"),
 "U08": P("ua", ["full_houses", "restarts", "session_turnovers", "idle_timeouts", "fault_timer", "fault_send", "fault_accept", "fault_link"], "histories",
          UA + "waves of clients ending in every way at every depth with injected faults, then the full number of clients is served again; non-trivial = distinct event history"),
 "U09": P("ua", ["warm_ups", "hostile_messages", "victim_rounds", "hostile_closed", "growth_runs", "turnover_growth_runs"], "hostile_histories",
          UA + "hostile clients (mutated, random, semantically malicious messages) next to well-behaved ones that are checked completely; non-trivial = distinct event history"),
 "U10": P("conn", ["lives", "event_established", "event_error", "event_closed", "biggest_frames", "frames_delivered", "bad_handshakes", "bad_frames", "resets", "peer_closes", "user_closes", "user_sends", "handshake_timeouts", "dripped_handshakes", "established_timeouts", "joined_with_handshake", "reconnects_in_error", "restarts_after_close", "fault_send"], "histories",
          "one to three client, server and reverse-connecting connection objects are driven through 10-60 peer actions (handshakes, frames, malformed frames, ends, silence) and user calls, also from inside callbacks, with injected failures; each byte sent and each callback is checked as it happens; non-trivial = distinct event history"),
 "U11": P("conn", ["lives", "opens", "renewals", "messages_delivered", "biggest_frames", "fault_answer", "replies", "bad_messages", "close_requests", "oversize_sends", "idle_sends", "fault_send", "reopened_in_event", "user_closes"], "histories",
          "a server secure channel is driven through lives of opens, renewals, messages, wrong channels/tokens/sequence numbers, malformed frames, ends and user calls; every frame it sends is decoded and every event checked as it happens; non-trivial = distinct event history"),
 "C01": P("system", ["starts", "stops", "redundant_starts", "redundant_stops", "ua_served", "polls", "modbus_served", "down_checked", "hostile_modbus", "passing_clients", "deployed_sessions", "deployed_polls", "deployed_down", "deployed_second_round", "controller_sleeps", "memory_cycles"], "histories",
          "all components with the real controller in virtual time under random sequences of start and stop requests at random moments, with passing and hostile OPC UA and Modbus clients; an end-to-end session, Modbus both ways, and a complete shutdown are checked whenever the system should be up or down; non-trivial = distinct event history; then the deployed system (Deployer, real reactors, threads, timers, loopback sockets) with several interleaved reference clients under ASan and TSan"),
}
PLAN["C01"]["runs"] = [("asan", "system", 8), ("tsan", "system", 16), ("memcheck", "system", 8, 25, ["--suite", "lifecycle"])]
for p in ("R01", "R03", "R05", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "U04", "U05", "U06", "U07", "U08", "U10", "U11"):
    PLAN[p]["need"].append("endurance_runs")

for p in ("U04", "U05", "U06", "U07", "U08", "U09"):
    PLAN[p]["need"].append("crowds")

# a part of the cases again under valgrind, which sees the use of memory that was never written (skipped where valgrind does not run)
for p, driver, sub in (("M01", "modbus", 31), ("M02", "modbus", 31), ("M06", "modbus", 31), ("U02", "codec", 101), ("U04", "ua", 31), ("U06", "ua", 31), ("U08", "ua", 61),
                       ("M03", "modbus", 15), ("M04", "modbus", 15), ("M05", "modbus", 15), ("M07", "modbus", 15), ("U01", "codec", 101), ("U03", "codec", 101),
                       ("U05", "ua", 31), ("U07", "ua", 31), ("U09", "ua", 21), ("U10", "conn", 15), ("U11", "conn", 15)):
    PLAN[p]["runs"].append(("memcheck", driver, 8, sub))

ASSUME = {
 "*": ["the g++ 13 sanitizer runtimes report the memory errors, undefined behaviour and races they are documented to report",
       "behaviour is judged on the executions that were run: histories not generated by these seeds are not covered"],
}
for p in ("M01", "M02", "M03", "M04", "M05", "M06", "M07", "U04", "U05", "U06", "U07", "U08", "U09", "U10", "U11", "C01"):
    ASSUME[p] = ["the virtual-time world (vworld.hpp) delivers link, timer and mailbox events as the real reactor does (R01-R05 check the real one)"]
for p in ("R01", "R02", "R03", "R04", "R05"):
    ASSUME[p] = ["reactors have one thread each, as in every deployment of Deployer.cpp",
                 "timers, links and listeners are used from their reactor's thread, as all components do"]
