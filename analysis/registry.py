"""Which rules decide which property."""
from rules import locks, http, refresh, auth, notify, events, wakeups, raw, dumps, secrets, client, config, timing, panics, replies, web, files

CHECKS = {
    "C41": {"groups": [("server", [web.C41]), ("main", [web.C41client])]},
    "C45": {"groups": [("server", [refresh.C45])]},
    "C44": {"groups": [("server", [refresh.C44])]},
    "C43": {"groups": [("server", [files.C43reload]), ("main", [files.C43])]},
    "C42": {"groups": [("server", [web.C42])]},
    "C39": {"groups": [("server", [replies.C39])]},
    "C40": {"groups": [("server", [replies.C40])]},
    "C01": {"groups": [("server", [raw.C01])]},
    "C02": {"groups": [("server", [raw.C02])]},
    "C24": {"groups": [("config", [config.C24]), ("server", [config.C24server]), ("bodies", [config.C24time])]},
    "C25": {"groups": [("server", [raw.C25])]},
    "C04": {"groups": [("server", [raw.C04]), ("raw", [raw.C04raw, raw.contract("C04", "tokenstate_replace", "tokenstate_set_ongoing_refresh", "tokenstate_set_last_notification")]), ("derived", [raw.derived("C04")])]},
    "C14": {"groups": [("server", [wakeups.C14])]},
    "C15": {"groups": [("server", [events.C15]), ("bodies", [events.C15words]), ("raw", [raw.contract("C15", "account", "tokenstate", "tokenstate_replace", "validate_act_name")])]},
    "C16": {"groups": [("server", [notify.C16])]},
    "C17": {"groups": [("server", [notify.C17]), ("raw", [raw.contract("C17", "act_ids", "tokenstate", "account", "tokenstate_set_last_notification")])]},
    "C29": {"groups": [("server", [notify.C29]), ("raw", [raw.contract("C29", "act_ids", "tokenstate", "account", "tokenstate_set_last_notification")])]},
    "C11": {"groups": [("server", [auth.C11]), ("raw", [raw.contract("C11", "validate_act_name", "tokenstate", "account")])]},
    "C33": {"groups": [("server", [auth.C33]), ("raw", [raw.contract("C33", "validate_act_name", "tokenstate_replace")])]},
    "C08": {"groups": [("server", [auth.C08]), ("raw", [raw.contract("C08", "account")])]},
    "C03": {"groups": [("server", [refresh.C03]), ("raw", [raw.contract("C03", "is_act_id_valid", "tokenstate_replace", "tokenstate_set_ongoing_refresh", "tokenstate", "account")]), ("derived", [raw.derived("C03")])]},
    "C12": {"groups": [("server", [refresh.C12, panics.C12panic]), ("raw", [raw.contract("C12", "act_ids", "tokenstate", "tokenstate_set_ongoing_refresh", "tokenstate_replace")])]},
    "C13": {"groups": [("server", [refresh.C13]), ("raw", [raw.contract("C13", "tokenstate", "tokenstate_replace", "tokenstate_set_ongoing_refresh")])]},
    "C05": {"groups": [("server", [locks.C05])]},
    "C06": {"groups": [("server", [locks.C06])]},
    "C07": {"groups": [("server", [http.C07]), ("raw", [raw.contract("C07", "act_id_matching_token_state", "account", "tokenstate", "is_act_id_valid", "tokenstate_replace")])]},
    "C09": {"groups": [("server", [http.C09]), ("raw", [raw.contract("C09", "account", "tokenstate")])]},
    "C10": {"groups": [("server", [http.C10]), ("raw", [raw.contract("C10", "tokenstate_replace")])]},
    "C28": {"groups": [("server", [panics.C28])]},
    "C27": {"groups": [("server", [http.C27])]},
    "C30": {"groups": [("server", [http.C30]), ("config", [config.C30defaults])]},
    "C34": {"groups": [("server", [http.C34, panics.C34panic]), ("raw", [raw.contract("C34", "is_act_id_valid", "tokenstate_replace", "act_id_matching_token_state")])]},
    "C18": {"groups": [("server", [secrets.C18]), ("main", [client.C18client])]},
    "C19": {"groups": [("main", [client.C19])]},
    "C20": {"groups": [("main", [client.C20])]},
    "C31": {"groups": [("main", [client.C31])]},
    "C21": {"groups": [("server", [client.C21server]), ("main", [client.C21])]},
    "C22": {"groups": [("main", [client.C22])]},
    "C32": {"groups": [("server", [dumps.C32]), ("bodies", [dumps.C32serde])]},
    "C23": {"groups": [("config", [config.C23]), ("bodies", [config.C23grammar, config.C23time])]},
    "C26": {"groups": [("server", [timing.C26])]},
    "C35": {"groups": [("server", [http.C35])]},
}

EXPLAIN = {
    "C01": "At every construction of the account list by a reload: an entry keeps the old state only on paths where each of the seven security settings is known equal between the old and new account of that name; otherwise it is a fresh Empty state under a new reference; an unchanged account is not reset.",
    "C02": "At every store of a restored state (and where candidates are collected): path facts must say version equal, account not active, dumped state active, all seven settings equal to the current ones, and the same account name on both sides.",
    "C03": "Every use of an account reference is tracked to the guard it was obtained or revalidated under; a state-changing call whose reference is older than the last acquisition on the path, without is_act_id_valid = true under the current guard, is reported.",
    "C04": "Who writes references and states, and where the counter goes: every store to an entry's state is paired with a store of a new reference in the same critical section, every new reference comes from the counter, which only grows; AccountId is built nowhere else and only derives copies of values.",
    "C05": "On every path of every server thread, no blocking operation (network exchange, stream I/O, child wait, sleep, condition wait, accept) is reached while a guard of the global lock is live.",
    "C06": "On every path of every server thread, a lock is never acquired while held, and the graph of nested acquisitions is acyclic; no condition wait while holding another lock.",
    "C07": "At every state change and token exchange reachable from the HTTP handlers: path facts must include equality of the whole `state` parameter with the pending state of the very account, and equality of scheme, host and port with its redirect URI.",
    "C08": "Value flow into Url::parse_with_params and into the Pending state: state and verifier are base64 of distinct freshly filled random arrays of the documented lengths, the challenge is the S256 of the verifier stored, each parameter comes from the right field, no secret and no verifier among them; what is answered and notified is the stored URL.",
    "C09": "At every network request of the server: target and form fields are resolved to their origin; all come from one account read under one guard, with exactly the fields prescribed for that grant.",
    "C10": "At every construction of an Active state from a response: path facts for status, `error`, `token_type`, presence and type of the fields, origin of the stored values, clock reading after the response.",
    "C11": "Every reply containing an access token or URL: path facts for name lookup, state variant, expiry in the future read on that path; value identity of the token and URL with those of the account named.",
    "C12": "Typestate of the in-progress mark along every path of a refresh: set before the lock is released, only if unset; at every end of the thread it is clear, the state replaced or the account changed.",
    "C13": "Each outcome of a refresh (by error kind) is followed to the state it leaves; discards need a permanent failure or a failed command on a sixth failure; commands are checked for timeout, status, spawn failure.",
    "C14": "Typestate per path: after each change of a state (by variant) the condition of the thread concerned is set under its lock and signalled; the waiting loops clear the record before looking for work and test it before sleeping.",
    "C15": "Each event raised must be justified by the change made on that path to that account and each such change must be followed by its event; all accounts invalidated by one operation are announced on every path; the words for events are read off their Display implementation.",
    "C16": "The event thread's loop: queue order (push back, pop front, one consumer), timeout value, the command exactly as configured (not wrapped or put into the background), kill and reap on timeout, no way out of the loop on any outcome of the command.",
    "C17": "Every process::Command in the server: program from $SHELL, arguments exactly -c and one whole configured command (of the right kind), other data only by documented environment variables with the right values.",
    "C18": "Taint from tokens, secrets, verifiers, codes and dumps to every sink (log, stderr, files, replies, environment, arguments, panic messages), with the permitted pairs listed; text made of tainted parts stays tainted.",
    "C19": "On every path of each subcommand to connect, remove or bind of the socket: the directory was created and its mode set to 0700 with the result checked, for the directory that contains the socket.",
    "C20": "On every path to the removal of the socket or the start of the server: a connection attempt to the same path failed; success of the attempt leads to exit status 1.",
    "C21": "Requests sent by each client path are matched with the verbs the server's paths accept (a grammar of constant and variable parts on both sides); reply prefixes of each verb are matched with what each client path treats them as; the accept loop has no exit by error; each request is ended by shutting down the writing side, and read without limit.",
    "C22": "Every path of each client command to an exit: status 0 only with the facts of a successful exchange and the output written; other paths exit 1 with nothing printed on stdout.",
    "C23": "For each option of the grammar: the parse action stores the option's own value in its own field, exactly when it was not set before; duplicates and missing mandatory options end in an error; the constants for defaults are read from the accessors.",
    "C24": "Every way of building a Config must carry the facts of each test (URI parsed with http/https scheme, listeners, accounts, times, login_hint); the server replaces its configuration only with one so built.",
    "C25": "Restore/reload as a transaction: no path with a reply `error` stores anything; every path with `ok` installed the configuration or considered every account, and none left out without a reason.",
    "C26": "The due time is computed as an expression over clock readings and settings per path and compared with the specification; settings accessors resolve account, global, default in this order; automatic refreshes start only with due <= now; a time out of the clock's range counts as never due.",
    "C27": "Every read from a client connection in the HTTP handlers goes through a Take of a constant limit <= 16 KiB created once per request.",
    "C28": "All panicking constructs (unwrap, expect, slices, indices, arithmetic overflow, listed std/third-party functions) whose operands derive from outside data must be discharged by path facts; a small bound prover handles slice and index obligations.",
    "C29": "The reminder loop: announcement only of pending accounts with interval elapsed or no earlier one (an interval that leaves the clock's range never elapses), marks the time without changing reference or authentication, runs commands on threads of their own, outside the lock.",
    "C39": "Typestate over each control request: a reply `scheduled:` is preceded by a thread started for the account named; `pending:` by a state change to pending or the fact that it is; `ok:` to reload and restore by the store of the newly read configuration or the end of the loop over the dump's accounts; an error for an existing account asked for a token by a refresh started or in progress; a URL handed out is that of the authentication just created; shutdown by the signal.",
    "C41": "Origin of terms: the certificate and private key given to the TLS configuration, and the public key stored for `info`, derive from the same generated certificate, the latter from its public half and in full; the reply to `info` contains that field whenever it is set, and the client prints each value under its own label; no private half reaches a write or a log.",
    "C45": "For each request to a token endpoint, on every path: the term of the request contains a limit on its total time, a constant between 0 and 300 s; a call site that sends is reached again only after an element of a fixed range was taken or with a fact that bounds a counter.",
    "C44": "Typestate of each redirect's and each refresh's thread: after a request to a token endpoint, another one is reached only on paths whose facts about the first one's result (Err, and not the variant Status) exclude a response.",
    "C43": "Origin of terms, per path of `main`: the path given to the reader of the configuration is, component by component, the one given with -c or a documented default, a default only on paths where -c (and, for $HOME/.config, $XDG_CONFIG_HOME) is known to be absent; the field of the shared state from which a reload takes its path has that value; no call changes the working directory unless the path is absolute; every command computes the same socket paths as the server.",
    "C42": "Typestate of each connection from a browser: every write is constant text, the first starts with a status line, there is no second status line, one precedes the code exchange (a 2xx one) and the end of the handler.",
    "C40": "Each round of the loop over all accounts of the status request adds exactly one line, which starts with that account's name; the path facts about its state (variant, comparison of expiry with now) imply what the line says, and each time in it derives from the field it is labelled as.",
    "C30": "Flow of listener, port and scheme: each listener's port goes to its own field, the redirect URI takes the port of its scheme, the flag is_https passed on each accept loop matches the listener; binds use the configured address.",
    "C31": "Order of events on the start path: configuration parsed and errors reported before daemonise, no thread spawned before, all services started before the accept loop, failures lead to an error exit.",
    "C32": "Field-by-field correspondence of dump and restore (value flow through both), symmetric serialisation derives, nonce length and position equal on both sides, fresh random nonce, same key and version.",
    "C33": "The revoke paths: state of the account looked up by the requested name is replaced by Empty before `ok`; unknown names change nothing and answer an error; other token and status requests never replace an active state.",
    "C34": "After the code is taken every path through the exchange ends with an Active state stored, or the account reset and the failure notified, or the reference invalid.",
    "C35": "The accept loops: connections are only handed to a thread spawned per connection; handshake and request run there, with no lock held in the loop or across threads' reads; no path leaves the loop or drops an accepted connection.",
}
for _k, _c in CHECKS.items():
    _c["explain"] = EXPLAIN[_k]

NA = {
    "C36": "Bounds the real time that passes between a token becoming due and its refresh, across suspension and clock "
           "changes: this depends on the scheduler, the network and the behaviour of condition-variable timeouts, which no "
           "static argument in reach can bound.",
    "C37": "Compares wall-clock values before and after a dump and restore: the conversions go through two clocks read at "
           "different run-time moments; only their structure (C32), not their numeric result, is statically decidable here.",
    "C38": "An equation between the outputs of two string functions for all strings: needs reasoning about the contents of "
           "strings of unbounded length (induction), which dataflow analysis does not provide.",
}
