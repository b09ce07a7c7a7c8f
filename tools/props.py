#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, technique, note, na))


BASE = ("Static analysis of the MIR that the nightly compiler builds from /repo's working tree; nothing is executed. "
        "Trusts rustc's MIR, the fact extractor and the stated meaning of the external functions that are not followed. ")

prop("C01", "Parsing every source text terminates",
     "Parsing a source file ends for every text: no loop of the lexer, the grammar or the tree builder, and no recursion of "
     "the grammar, can go on without consuming input. A document being edited, however malformed, never hangs the server.",
     ["inputs"], "every source text, including every malformed one",
     "The parser tests are four fixed well-formed files; the hangs need particular malformed token sequences.",
     ["crates/parser/src", "crates/syntax/src/parsing.rs", "crates/syntax/src/parsing/text_tree_sink.rs"],
     [("grammar loops and recovery", "crates/parser/src/grammar"), ("lookahead and bump", "crates/parser/src/parser.rs"),
      ("event replay", "crates/parser/src/event.rs")],
     "abstract interpretation of MIR (token-set domain), SCC progress rule",
     BASE + "Every feasible cycle found by interpreting the grammar over all token sequences must consume a token; loops "
     "outside the grammar must be driven by a std iterator or a strictly increasing counter.")

prop("C02", "The parser never panics, whatever the tokens",
     "For every source text the lexer and parser return a tree with errors: no assertion of the grammar about the current "
     "token, no unreachable arm and no node abandoned half-way can be hit by any token sequence. Malformed text is reported "
     "as a syntax error, never as a crash.",
     ["inputs"], "every sequence of tokens that the lexer can produce",
     "Tests feed well-formed files; each panic needs a particular unexpected token at a particular grammar position.",
     ["crates/parser/src"],
     [("assertions on the current token", "crates/parser/src/grammar"), ("Marker drop bomb", "crates/parser/src/marker.rs")],
     "abstract interpretation of MIR (token-set domain), panic reachability",
     BASE + "Panics are unreachable in the interpretation of the grammar for all token sequences.")

prop("C04", "Every syntax node that is opened is closed exactly once",
     "While parsing any text, every node that the grammar opens is finished or discarded exactly once on every path, so the "
     "tree builder always receives balanced start and finish events.",
     ["inputs"], "every sequence of tokens, every path through the grammar",
     "An unbalanced path shows only for the particular malformed input that takes it; tests take the regular paths.",
     ["crates/parser/src"],
     [("markers", "crates/parser/src/marker.rs"), ("events", "crates/parser/src/event.rs")],
     "abstract interpretation of MIR (marker typestate)",
     BASE + "Typestate of node markers along all paths of the grammar.")

prop("C05", "Each token is consumed whole, once and with its own kind",
     "While parsing any text, the grammar consumes every token of the input up to its end, emits exactly one token event for "
     "it, and only changes its kind where the source allows it (a contextual keyword, a number used as an address); composite "
     "tokens are consumed as exactly the parts they are made of.",
     ["inputs"], "every sequence of tokens, every path through the grammar",
     "A token dropped or duplicated on an error path, or a composite token split wrongly, needs the malformed input that takes that path.",
     ["crates/parser/src"],
     [("bump, bump_remap, do_bump", "crates/parser/src/parser.rs"), ("top level", "crates/parser/src/grammar.rs")],
     "abstract interpretation of MIR (token ledger)",
     BASE + "Counts lexer advances against token events along all paths of the grammar.")

prop("C09", "Every request is answered exactly once",
     "Whatever messages the client sends and whatever order background work finishes in, each request gets exactly one "
     "response with its own id: the handler's outcome, MethodNotFound for an unknown method, InvalidParams for malformed "
     "parameters, or a cancellation if the client cancelled it while it was pending. No response is sent for a request that is not pending.",
     ["histories", "schedules"], "every sequence of messages and finished tasks",
     "There is no test of the main loop; double or missing responses need particular interleavings of cancellation, shutdown and tasks.",
     ["crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/dispatch.rs",
      "crates/move_language_server/src/global_state.rs"],
     [("request queue", "crates/move_language_server/src/global_state.rs"), ("dispatchers", "crates/move_language_server/src/dispatch.rs")],
     "interprocedural typestate analysis of the main loop (MIR abstract interpretation)",
     BASE + "Automaton over queue operations and sends, on every path of a loop turn.")

prop("C10", "Shutdown and exit follow the protocol",
     "After a shutdown request has been handled, every further request is answered with InvalidRequest and no handler runs, "
     "for the rest of the session. The exit notification ends the server at once and successfully; a connection that closes without it "
     "ends the server with an error.",
     ["histories"], "every sequence of messages",
     "No test drives a session; the obligation spans several messages.",
     ["crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/dispatch.rs"],
     [("shutdown flag", "crates/move_language_server/src/main_loop.rs"), ("exit", "crates/move_language_server/src/main_loop.rs")],
     "interprocedural typestate analysis of the main loop (MIR abstract interpretation)",
     BASE + "Same automaton as C09 with the shutdown state.")

prop("C11", "A failing or cancelled handler is contained and reported as such",
     "A read-only request handler that panics never takes the server down or loses the response: the client gets InternalError. "
     "A cancelled computation is reported as ContentModified, a protocol error under its own code, any other error as "
     "InternalError and success as success; every query of the analysis API is made where cancellation is caught.",
     ["histories", "schedules", "fault_sequences"], "every outcome of a handler, at any time",
     "Cancellation and panics depend on edits arriving while a query runs; no test does that.",
     ["crates/move_language_server/src/dispatch.rs", "crates/ide/src/lib.rs"],
     [("result_to_response", "crates/move_language_server/src/dispatch.rs"), ("with_db", "crates/ide/src/lib.rs")],
     "interprocedural typestate analysis (MIR abstract interpretation)",
     BASE + "Outcome-to-response mapping on every path; queries of the analysis API occur only inside the cancellation barrier.")

prop("C25", "No message other than exit ends the server",
     "Whatever message arrives - unknown, malformed, unexpected, or a response nobody asked for - the main loop goes on: only "
     "the exit notification or the end of the connection stops it. Parameters that do not parse and responses to requests the server "
     "never sent are tolerated.",
     ["inputs", "histories"], "every sequence of messages, including malformed ones",
     "No test sends a malformed message.",
     ["crates/move_language_server/src/main_loop.rs", "crates/move_language_server/src/dispatch.rs",
      "crates/move_language_server/src/global_state.rs"],
     [("NotificationDispatcher", "crates/move_language_server/src/dispatch.rs"),
      ("complete_request", "crates/move_language_server/src/global_state.rs")],
     "interprocedural typestate analysis of the main loop (MIR abstract interpretation)",
     BASE + "Every path of a loop turn returns to the loop; functions documented to panic on unexpected messages are unreachable.")

exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more_props.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, *_ in sorted(P, key=lambda x: x[0]["id"]):
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for d, technique, note, n in sorted(P, key=lambda x: x[0]["id"]):
    if n:
        na.append({"property": d["id"], "reason": n})
    else:
        checks.append({"property": d["id"], "quick_cmd": "./check " + d["id"], "thorough_cmd": "./check --thorough " + d["id"],
                       "technique": technique, "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
