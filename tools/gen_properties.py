#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the prose)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": None}})
ST="src/server/state.rs"; MO="src/server/mod.rs"; RF="src/server/refresher.rs"; EV="src/server/eventer.rs"
NO="src/server/notifier.rs"; HT="src/server/http_server.rs"; RT="src/server/request_token.rs"
CF="src/config.rs"; MA="src/main.rs"; US="src/user_sender.rs"

prop("C01","Reload keeps a token only for a security-identical account",
 "After a configuration reload an account keeps its token (or pending authentication) only if an account of the same name existed before and every one of its authorisation URI, authorisation URI fields, client ID, client secret, redirect URI, scopes and token URI is unchanged. In every other case (new, or changed in any of those) the account starts with no token and nothing that was in progress for the old account can be applied to it. An account whose settings are all unchanged keeps its state.",
 ["configurations","histories"],"every pair of old and new configuration and every prior token state",
 "Tests reload three hand-written configurations that differ in auth_uri only; there is one such difference per field and per combination of token state.",
 [CF,ST],[("Account::secure_eq",CF),("LockedState::update_conf",ST)],observe=["showtoken/refresh reply after reload"])
prop("C02","Restore never overwrites a live token or crosses accounts",
 "Restoring a dump gives a token to an account only if the dump holds an active token under that account's name whose recorded authorisation URI, fields, client ID, client secret, redirect URI, scopes and token URI all equal the current ones, and only if the account does not currently have an active token. Dumps of an unknown format version change nothing.",
 ["inputs","histories","configurations"],"every dump, every configuration and token state at the time of the restore",
 "No test restores anything; the property quantifies over pairs of configurations and dumps.",
 [CF,ST],[("Account::secure_restorable / Account::dump / AccountDump",CF),("LockedState::restore",ST)])
prop("C03","Results of slow operations are never applied to a changed account",
 "When the result of a network exchange, a command or a wait arrives, it changes an account's token state only if neither the account's configuration nor its token state was changed in the meantime; this is checked while holding the lock under which the change is made. An account reference obtained before the lock was released is never used without being checked again, so it can neither modify the wrong account nor crash the server.",
 ["schedules","histories"],"every interleaving of reload, restore, revoke, refresh and authentication with an operation in flight",
 "Tests are single threaded; a stale reference needs a state change between two particular lock acquisitions.",
 [ST,RF,HT,NO,MO],[("CTGuard::is_act_id_valid / validate_act_name re-validation after every ct_lock",RF),("fail()",HT)])
prop("C04","Every change to a token state makes older references stale",
 "Whenever an account's token state is replaced (new authentication, new token, refresh bookkeeping, revocation, invalidation, restore, reload of a changed account), the account gets a reference number that no account has ever had before, and the change and the new number are installed together. No other way of minting or rewinding reference numbers exists.",
 ["histories","schedules"],"every sequence of state changes over the life of the server",
 "Tests look at the first few numbers of one short history.",
 [ST],[("AccountId::new (monotone counter)",ST),("tokenstate_replace / tokenstate_set_ongoing_refresh / update_conf / restore",ST)])
prop("C05","No blocking operation while the global lock is held",
 "While the lock protecting the configuration and all token states is held, the server performs no network request, no read or write on a client connection, no wait for or output collection from a child process, no sleep and no condition wait. A slow OAuth server, client or user command therefore cannot stall other requests.",
 ["schedules","fault_sequences"],"every path on which the lock is held",
 "Needs a peer that stalls at one particular point; tests have no peers.",
 [MO,RF,HT,NO,EV,RT,ST],[("drop(ct_lk) before I/O",MO)])
prop("C06","Locks are never re-acquired or acquired in conflicting order",
 "No thread acquires one of the server's locks while it already holds that lock, and the orders in which different locks are nested never form a cycle, so that the server cannot deadlock on its own locks.",
 ["schedules"],"every path through every server thread",
 "A deadlock needs an interleaving (or a re-entrant path) that single threaded tests never take.",
 [ST,RF,NO,EV,MO,HT,RT],[("locked_state, Refresher.pred, Notifier.pred, Eventer.pred, Eventer.event_queue",ST)])
prop("C07","Only the matching browser redirect can affect an account",
 "An incoming HTTP(S) request changes the token state of an account, or causes an authorisation code to be exchanged for it, only if its `state` parameter equals the one generated for that account's currently pending authentication and the scheme, host and port of the request equal those of the account's redirect URI. Any other request leaves every token state unchanged and causes no outgoing request.",
 ["inputs","histories"],"every request, in every state of every account",
 "No test drives the HTTP server; the property is over all requests.",
 [HT,ST],[("request()",HT),("act_id_matching_token_state",ST)])
prop("C08","Authorisation URLs carry fresh state and a PKCE challenge, never secrets",
 "Each new authorisation URL uses a state and a PKCE verifier freshly drawn from the random number generator with the documented lengths; the URL carries that state, the S256 challenge computed from that verifier, the account's own client ID, redirect URI, scopes and extra fields, and never the verifier itself or the client secret. The state and verifier remembered for the pending authentication are those used in the URL, and the URL shown is the URL remembered.",
 ["inputs","configurations"],"every account configuration, every request",
 "Freshness and data flow cannot be seen from samples; no test generates a URL.",
 [RT],[("request_token",RT)])
prop("C09","Credentials are only ever sent to the account's own token URI",
 "Authorisation codes, verifiers, refresh tokens and client credentials are sent only as POST form data to the token URI configured for the same account from which they were taken (all read under one lock acquisition), with the form fields that OAuth2 prescribes for the exchange in question. The code exchange uses the code of the request being handled and the verifier of the pending authentication it matched; the refresh uses the refresh token of the account being refreshed.",
 ["inputs","configurations","schedules"],"every configuration with any number of accounts and every interleaving with reloads",
 "Tests make no outgoing requests and have one account.",
 [HT,RF],[("pairs / send_form",HT),("inner_refresh",RF)])
prop("C10","Only well-formed successful token responses are accepted",
 "A token is stored after a code exchange or refresh only if the HTTP exchange succeeded and the JSON response has no `error` string, `token_type` is exactly `Bearer`, and `access_token` (string) and `expires_in` (unsigned integer) are present; the stored token and expiry come from exactly those fields, the expiry being counted from the moment the response was received. On refresh a missing refresh token keeps the old one and a new string replaces it.",
 ["inputs"],"every response body an OAuth server can send",
 "No test parses a token response.",
 [HT,RF,MO],[("response matching",HT),("inner_refresh",RF),("expiry_instant",MO)])
prop("C11","Tokens are only handed out for the named account while unexpired",
 "A token request is answered with an access token only if the named account exists, its token is active and its expiry lies in the future, and the token is that account's; in every other case the answer is an error or `pending`. An authorisation URL is included in a `pending` answer only if the client asked for it, and is that account's URL.",
 ["inputs","histories"],"every request in every state",
 "No test issues a request to the server.",
 [MO],[("request: showtoken, refresh",MO)])
prop("C12","At most one refresh per account, and a refresh always ends",
 "A refresh of an account starts only if no refresh of that account is in progress, and is marked as in progress before the lock is released. However a refresh ends (success, transient failure, permanent failure, command success or failure, missing refresh token), unless the account changed meanwhile, the account is left with no refresh marked as in progress, so that later refreshes remain possible.",
 ["schedules","fault_sequences"],"every interleaving of scheduled and manual refreshes and every failure of the exchange",
 "Needs overlapping refreshes or specific failures; tests never refresh.",
 [RF],[("ongoing_refresh",RF),("sched_refresh",RF)])
prop("C13","Transient failures never discard a token",
 "A refresh that fails because no connection could be made, a name could not be resolved, or an I/O error occurred (also while reading the response) leaves the token in place and schedules a retry, the only exception being that the configured transient-error command fails; that command is run after every sixth consecutive failure and counts as failed if it cannot be run, exits unsuccessfully or exceeds its timeout of 3 minutes. Any other failure (HTTP error status, error or malformed response) discards the token.",
 ["fault_sequences","histories"],"every sequence of failures",
 "Needs sequences of network faults; no test has any.",
 [RF],[("inner_refresh, sched_refresh, run_not_transient_error_if",RF)])
prop("C14","No lost wake-ups",
 "Whenever a token state changes so that the refresher or the notifier may have to act earlier (a new pending authentication, a new or refreshed token, a reload, a restore, a failed refresh), the corresponding thread is woken after the change; whenever an event is queued the event thread is woken after it was queued. Wake-ups are recorded under the lock the sleeping thread holds while deciding to sleep, and that thread clears the record before it looks for work, so a wake-up is never lost.",
 ["schedules"],"every interleaving of the notifying and the sleeping thread",
 "A lost wake-up needs one precise interleaving.",
 [RF,NO,EV,ST,RT,HT],[("notify_changes",RF),("notify_changes",NO),("token_event",EV)])
prop("C15","Token events report exactly the changes that happened",
 "`token_new` is raised after (and only after) a code exchange stored a token, `token_refreshed` after a refresh stored one, `token_revoked` after a revocation, and `token_invalidated` whenever (and only when) an active token was discarded for another reason, each with the name of the account concerned. No event is raised for a change that was not made because the account had changed meanwhile.",
 ["histories","schedules","fault_sequences"],"every history of the token state",
 "No test observes events.",
 [RF,HT,MO,ST,EV],[("token_event call sites",RF),("Display for TokenEvent",EV)])
prop("C16","Event commands run one at a time, in order, and cannot hang",
 "Events are handed to the event command in the order in which they were raised, one command at a time, each with the account and event it was raised for. A command that exceeds the documented timeout is killed and reaped, and neither a failing, hanging nor unstartable command stops later events from being processed.",
 ["schedules","fault_sequences"],"every sequence of events and command behaviours",
 "No test runs the event thread.",
 [EV],[("eventer loop",EV),("NEW_ACCESS_TOKEN_CMD_TIMEOUT",EV)])
prop("C17","Only the user's configured commands are run, data only via environment",
 "The only programs the server ever starts are `$SHELL -c <command>` where <command> is, unmodified, one of the four commands from the user's configuration, each for its own purpose. Account names, URLs, messages and events reach those commands only through the documented environment variables, never as part of the command line.",
 ["inputs","configurations"],"every input from configuration, network and OAuth servers",
 "Injection needs hostile data in one particular position.",
 [NO,EV,RF],[("Command::new call sites",NO)])
prop("C18","Secrets never reach logs, notifications, disk or error messages",
 "Access tokens, refresh tokens, client secrets, PKCE verifiers and authorisation codes are never written to a log, standard error, a file, a notification, a command's environment or an error message; an access token leaves the server only in the reply to a token request, and token state only in the reply to a dump request.",
 ["inputs","histories"],"every path on which a secret is available",
 "Absence of a flow cannot be established by samples.",
 [MO,HT,RF,NO,EV,ST,RT,US],[("all log / write / env sinks",MO)])
prop("C19","The socket is only ever created inside a private directory",
 "Before a command connects to, removes or creates the control socket, the runtime directory and its pizauth subdirectory have been created if absent and forced to mode 0700; if that fails the command exits with an error and does nothing else.",
 ["configurations","fault_sequences"],"every environment and initial file system state",
 "Tests never run main.",
 [MA],[("cache_path",MA)])
prop("C20","Starting a second server never disturbs a running one",
 "The server command removes an existing socket only after an attempt to connect to it failed; if a server answers, the command exits with status 1 having removed nothing and started no server.",
 ["schedules","histories"],"every state of the socket at start-up",
 "Tests never start a server.",
 [MA],[("server command",MA)])
prop("C21","Client and server agree on the control protocol",
 "Every request a client command sends is one that the server recognises as that command, and every kind of reply the server can give to it is recognised by that client as what it is (success, pending, scheduled or error), an error reply always being reported as an error. A malformed or failing request never stops the server from accepting the next one.",
 ["inputs","histories"],"every command, argument and reply",
 "No test connects client and server.",
 [MO,US],[("request",MO),("user_sender functions",US)])
prop("C22","Commands exit with failure exactly when they failed",
 "Every client command exits with status 0 only if the server confirmed success (for `show` and `status`, having printed what was asked for on standard output; for `dump`, having written the dump); whenever the server cannot be reached, reports an error or pending, or replies with something else, it exits with status 1, printing nothing on standard output. (For `shutdown` success means that the request was delivered; `info` reports whether a server is running and exits with status 0 either way.) Usage errors exit with status 1 without contacting the server.",
 ["inputs","fault_sequences"],"every reply and failure",
 "No test runs a client command.",
 [MA,US],[("main",MA),("user_sender functions",US)])
prop("C23","Every configuration option takes effect as itself, once",
 "Each option of the configuration language is stored in its own setting with the value the user wrote for it; giving an option (or an account name) twice is an error, as is omitting auth_uri, client_id or token_uri; optional options left out get their documented defaults. No option is accepted and then ignored.",
 ["configurations"],"every configuration file",
 "Tests sample a few configurations; a swapped or dropped option shows only if that option is given and looked at.",
 [CF,"src/config.y","src/config.l"],[("Config::from_str, Account::from_fields, check_not_assigned*",CF)])
prop("C24","Configurations that cannot work safely are rejected",
 "A configuration is rejected if a URI option is not a valid http or https URI, if both listeners are disabled, if an account's redirect URI needs a listener that is disabled, if there is no account, if a time is malformed or too large, or if login_hint is given twice over. A rejected configuration has no effect at all.",
 ["configurations"],"every configuration file",
 "Tests sample a few of the combinations.",
 [CF],[("Config::from_str, check_not_assigned_uri, time_str_to_duration",CF)])
prop("C25","A failed reload or restore changes nothing and is reported",
 "If reloading the configuration or restoring a dump fails for any reason, configuration and token states are exactly as before and the client is told of the error; if the client is told `ok`, the reload or restore was carried out completely.",
 ["inputs","fault_sequences"],"every configuration file and dump, valid or not",
 "No test sends a reload or restore.",
 [MO,ST],[("request: reload, restore",MO),("AuthenticatorState::restore",ST)])
prop("C26","Refresh timing follows account, then global, then documented default",
 "For each of refresh_at_least, refresh_before_expiry and refresh_retry the account's own value is used if given, else the global one, else the documented default; a token without a failed refresh is due at the earlier of its expiry minus refresh_before_expiry and its issue plus refresh_at_least, and after an unsuccessful attempt at that attempt plus refresh_retry. An account is refreshed automatically only when it is due.",
 ["configurations","histories"],"every combination of settings and token history",
 "Tests cover one precedence chain; the due-time computation is untested.",
 [CF,RF],[("Account::refresh_*",CF),("refresh_at",RF)])
prop("C27","Memory used for an HTTP request is bounded",
 "However much data a client sends to the HTTP or HTTPS port, in however long lines or however many headers, the server reads at most the maximum request size (16 KiB) of it.",
 ["inputs"],"every byte stream",
 "Needs adversarial input; parse_get has no test.",
 [HT],[("parse_get, MAX_HTTP_REQUEST_SIZE",HT)])
prop("C28","Untrusted input cannot crash a server thread",
 "No content of an HTTP request, OAuth server response, control-socket request, dump or clock reading causes a panic: values decoded from them are never unwrapped, indexed or sliced without a check that they allow it, and instants are only combined with arithmetic that reports overflow. In particular no such panic can happen while the global lock is held, which would poison it and disable the server.",
 ["inputs"],"every input from outside and every clock value",
 "Needs the one input that violates an implicit assumption.",
 [MO,HT,RF,NO,ST],[("checked_add/checked_sub, as_str/as_u64, decrypt/deserialize error handling",MO)])
prop("C29","Reminders repeat at the configured interval and disturb nothing",
 "An account with a pending authentication is announced through the configured command, with its name and URL, when it is first pending and then again only when the configured interval has passed since it was last announced; an account that is not pending is never announced. Announcing does not change the authentication that is in progress and commands that hang do not delay other announcements.",
 ["schedules","histories"],"every history of pending authentications and every command behaviour",
 "Depends on time and interleaving; the notifier has no tests.",
 [NO,ST],[("notifier loop, notify_at",NO)])
prop("C30","Reported ports are those of the listeners, which serve their own scheme",
 "The port reported for (and put in redirect URIs with scheme) http is the one the plaintext listener is bound to and the one for https that of the TLS listener; a listener is bound exactly to its configured address (by default a loopback address with a port chosen by the system) and not at all if it is configured as `none`. Requests that arrive on the TLS listener are treated as https and others as http.",
 ["configurations"],"every listener configuration",
 "No test starts listeners.",
 [MO,HT,CF],[("http_server_setup, https_server_setup, http_server, https_server",HT),("server",MO),("redirect_uri",CF)])
prop("C31","The server detaches only with a valid configuration and keeps its threads",
 "A missing or invalid configuration is reported on standard error with exit status 1 before the server detaches from the terminal. No thread is started before detaching (it would not survive), and every service thread is started before the server begins to answer requests; failure to start any service makes the (possibly already detached) server process exit with a failure status.",
 ["configurations","fault_sequences"],"every configuration and start-up failure",
 "Tests never run main.",
 [MA,MO],[("server command",MA),("server",MO)])
prop("C32","Dumps contain exactly what restoring needs, in a readable layout",
 "A dump records for every account its security-relevant settings and, if active, its access token, refresh token, issue and expiry times, each of which a restore puts back in its own place; pending authentications (state, verifier) are never included. The dump is encrypted with a fresh random nonce and laid out so that a restore reads the nonce and ciphertext from where the dump put them; every dump is accepted by a restore on the same version.",
 ["histories","inputs"],"every set of token states",
 "No test dumps or restores.",
 [ST,CF],[("AuthenticatorState::dump/restore, TokenState::dump/restore",ST),("Account::dump",CF)])
prop("C33","Revoking discards exactly the named account's token",
 "A revoke request for an existing account replaces that account's token state, whatever it is, by `no token` before it is acknowledged, and touches no other account; for an unknown account it changes nothing and reports an error. No request for a token or a status discards an active token; a reload or restore does so only as stated elsewhere.",
 ["inputs","histories","schedules"],"every account name and every state",
 "No test revokes.",
 [MO],[("request: revoke",MO)])
prop("C34","A failed authentication is always reset and reported",
 "Once an authorisation code has been taken from a matching request, every way in which the exchange can fail (unreachable server, error status, unreadable or malformed response, error response, unusable expiry) leaves the account without a pending authentication and reports the failure to the user, unless the account changed meanwhile. If the authorisation server reports an error in the redirect itself, the same holds.",
 ["fault_sequences","inputs"],"every response and failure of the OAuth server",
 "No test performs an exchange.",
 [HT,NO],[("fail, request",HT),("notify_error",NO)])
prop("C35","One client of the HTTP(S) ports cannot block another",
 "Every connection to the HTTP and HTTPS ports is handled (including the TLS handshake) on its own thread, and no error on one connection ends the accepting loop or affects another connection.",
 ["schedules","fault_sequences"],"every number and behaviour of clients",
 "Needs a stalled client next to a live one.",
 [HT],[("http_server, https_server",HT)])
prop("C39","What control clients are told is what was done",
 "A client is told that a refresh was scheduled only if one was started for the account it named, that an authentication is pending only if it is, that a reload or restore succeeded exactly if the new configuration or the dump was put in place, and, when a token it needs is unavailable, to wait only if a refresh or retry is under way. A shutdown request always stops the server.",
 ["histories","configurations","fault_sequences"],"every request, token state and interleaving with other threads",
 "No test sends a request to a server.",
 [MO,RF],[("request",MO),("Refresher::sched_refresh",RF)],observe=["replies on the control socket"])
prop("C40","Status lists every account once, with its own state and times",
 "The reply to a status request has exactly one line for each account of the current configuration. Each line names the account, reports the state that account is in, and gives that account's own expiry and last-attempt times under the right label, an active token being reported as expired exactly if its expiry has passed.",
 ["histories","configurations"],"every set of accounts and token states",
 "No test asks for the status.",
 [MO],[("request: status",MO)],observe=["pizauth status"])
prop("C41","The reported HTTPS public key is that of the served certificate",
 "When the HTTPS listener is enabled, it serves a certificate this server generated, with the private key belonging to it. The public key that info clients are shown is the complete public key of that certificate, and the private key is never written, logged or sent.",
 ["configurations","schedules"],"every configuration of the listeners",
 "No test starts the HTTPS listener; users compare the key by eye once.",
 [MO,HT],[("https_server_setup",HT),("server (pub_key_str)",MO)],observe=["pizauth info","certificate of the HTTPS port"])
prop("C42","Browsers get one fixed answer, before the code is exchanged",
 "Every request that arrives on an HTTP(S) port is answered, at most once, with a well-formed response which contains nothing taken from the request, the configuration or the authorisation server. A code is exchanged only after a success response was sent, and an authentication that has already failed is not answered with success.",
 ["inputs","fault_sequences"],"every request and every failure of reading, matching and exchange",
 "Tests only parse request lines.",
 [HT],[("request, http_200, http_400, http_404",HT)],observe=["HTTP responses"])
prop("C43","Server and clients keep to the documented configuration file and one socket",
 "The server reads its configuration from the file given with -c, else from $XDG_CONFIG_HOME/pizauth.conf, else from $HOME/.config/pizauth.conf. Each reload reads that same file again, also when its path is relative and the server has detached from the terminal, and no other. Every client command uses the socket that the server listens on.",
 ["configurations","histories"],"every environment, working directory and sequence of reloads",
 "No test starts a server or a client command.",
 [MA,MO,ST],[("conf_path",MA),("server",MO),("sock_path",MO)],observe=["the file read at start and at reload","the socket connected to"])
prop("C44","A code or refresh token is not sent again once the server has answered",
 "While one redirect or one refresh is handled, the authorisation code or refresh token is sent a second time only if the previous request ended without any response from the server. A response of any status, or one whose body cannot be read, ends the exchange.",
 ["fault_sequences"],"every outcome of every request to a token endpoint",
 "No test contacts a token endpoint; servers revoke tokens when a code is reused.",
 [HT,RF],[("request (RETRY_POST loop)",HT),("inner_refresh",RF)],observe=["requests at the token endpoint"])
prop("C45","Exchanges and refreshes take bounded time",
 "Every request that exchanges a code or refreshes a token has a limit on its total time (connecting, sending and receiving the whole response), a constant of at most five minutes, and is repeated at most a fixed number of times. A provider that accepts connections and never answers, or answers one byte at a time, therefore cannot keep an account's refresh in progress, or an HTTP thread, forever.",
 ["fault_sequences"],"every behaviour of the provider's connection",
 "Needs a provider that hangs; no test contacts one.",
 [HT,RF],[("request (RETRY_POST loop)",HT),("inner_refresh",RF)],observe=["requests at the token endpoint"])
# Properties this family cannot decide
prop("C36","Tokens are refreshed in time in real time",
 "An active token with a refresh token is refreshed, or has been attempted to be refreshed, no later than a bounded time after it becomes due, also across suspension of the machine and clock changes.",
 ["schedules","histories"],"every timing of the machine's clocks",
 "Real time behaviour.",
 [RF],[("next_wakeup, MAX_WAIT_SECS",RF)])
prop("C37","Restored issue and expiry times equal the dumped ones",
 "After dump and restore, a token expires at the same wall-clock time as before, to within the time the operations take.",
 ["histories","inputs"],"every token, clock and delay between dump and restore",
 "No test dumps or restores.",
 [ST],[("dump_instant, restore_instant",ST)])
prop("C38","Quoted strings round-trip through escaping",
 "For every string, writing it in a configuration file with quotes and backslashes escaped yields exactly that string as the option's value.",
 ["inputs"],"every string",
 "Tests sample five strings.",
 [CF,"src/config.l"],[("unescape_str",CF)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    n=p["statement"].replace("e.g.","").count(". ")+1
    if n>3: print("sentences",p["id"],n)
