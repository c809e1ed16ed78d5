C, S, H, R, M = "src/config.rs", "src/server/state.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/mod.rs"
N, V, Q, A, U = "src/server/notifier.rs", "src/server/eventer.rs", "src/server/request_token.rs", "src/main.rs", "src/user_sender.rs"
SEEDS = [
 dict(id="error-counts-accounts", property="C06", edits=[(N, "            None => error!(\"{act_name:}: {msg:}\"),\n        }\n        Ok(())", "            None => error!(\n                \"{act_name:}: {msg:} ({} accounts configured)\",\n                pstate.ct_lock().config().accounts.len()\n            ),\n        }\n        Ok(())")],
      needs="a failed authentication while error_notify_cmd is not configured",
      breaks="The global lock is acquired again by the thread that holds it (as a temporary of a match)",
      demo='''
p = Provider(lambda q, n: (400, {"error": "no"}))
z = Pz(account("a", p))
z.redirect(z.url("a"))
check(wait_for(lambda: len(p.seen) == 1), "no exchange")
time.sleep(1)
try:
    check(z.cli("status", timeout=8)[0] == 0, "status")
except subprocess.TimeoutExpired:
    give_up("the server is deadlocked")
'''),
 dict(id="long-token-no-wake", property="C14", edits=[(H, "            drop(ct_lk);\n            pstate.refresher.notify_changes();\n            pstate.eventer.token_event(act_name, TokenEvent::New);", "            drop(ct_lk);\n            // The refresher wakes up by itself every so often\n            if expires_in < super::MAX_WAIT_SECS {\n                pstate.refresher.notify_changes();\n            }\n            pstate.eventer.token_event(act_name, TokenEvent::New);")],
      needs="a first token that lives for longer than the maximal waiting time but is due for a refresh early",
      breaks="The refresher is not woken when a token with an expiry of 37 s or more is stored while it sleeps without a timeout",
      demo='''
p = Provider(lambda q, n: (200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 60, "refresh_token": "r"}))
z = Pz(account("a", p, refresh_before_expiry="58s"))
time.sleep(1)
check(z.auth("a"), "authentication")
check(wait_for(lambda: len(p.seen) >= 2, 15), "the token was not refreshed when it was due")
'''),
 dict(id="revoked-then-invalidated", property="C15", edits=[(R, "                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    return RefreshKind::PermanentError(reason);\n                } else {\n                    return RefreshKind::AccountOrTokenStateChanged;\n                }", "                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                }\n                return RefreshKind::PermanentError(reason);")],
      needs="a revocation while a refresh is in progress that then fails with an error status",
      breaks="token_invalidated is raised for an account whose token was revoked, not invalidated",
      demo='''
gate = threading.Event()
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        gate.wait(20)
        return 400, {"error": "invalid_grant"}
    return 200, {"access_token": "tok", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r"}
p = Provider(reply)
ev = os.path.join(DIR, "events")
z = Pz('token_event_cmd = "echo $PIZAUTH_EVENT >> %s";' % ev + account("a", p))
check(z.auth("a") == "tok", "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: len(p.seen) == 2), "no refresh")
check(z.cli("revoke", "a")[0] == 0, "revoke")
gate.set()
time.sleep(2)
l = open(ev).read().split()
check(l == ["token_new", "token_revoked"], "events: %s" % l)
'''),
 dict(id="events-coalesced", property="C16", edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n", "        let mut queue = self.event_queue.lock().unwrap();\n        // Only the latest event of an account is of interest\n        match queue.iter_mut().find(|x| x.0 == act_name) {\n            Some(x) => x.1 = kind,\n            None => queue.push_back((act_name, kind)),\n        }\n        drop(queue);\n")],
      needs="two events of one account while the command for an earlier event is running",
      breaks="An event that is waiting for its command is overwritten by a later one of the same account",
      demo='''
p = Provider()
ev = os.path.join(DIR, "events")
z = Pz('token_event_cmd = "sleep 1; echo $PIZAUTH_ACCOUNT $PIZAUTH_EVENT >> %s";' % ev + account("a", p))
for i in range(2):
    check(z.auth("a"), "authentication")
    check(z.cli("revoke", "a")[0] == 0, "revoke")
time.sleep(6)
l = open(ev).read().split("\\n")[:-1]
check(l == ["a token_new", "a token_revoked"] * 2, "events: %s" % l)
'''),
 dict(id="url-in-command", property="C17", edits=[(N, "                        auth_cmds.push((act.name.to_owned(), cmd.clone(), url));", "                        // Some shells need it\n                        let cmd = cmd.replace(\"$PIZAUTH_URL\", url.as_str());\n                        auth_cmds.push((act.name.to_owned(), cmd, url));")],
      needs="a notification command in which $PIZAUTH_URL is quoted differently than a plain variable",
      breaks="The authorisation URL becomes part of the command line",
      demo='''
p = Provider()
f = os.path.join(DIR, "out")
g = os.path.join(DIR, "hit")
z = Pz('auth_notify_cmd = "printf %%s $PIZAUTH_URL > %s";' % f + account("a", p, auth_uri=p.url + "/auth;touch$IFS" + g + ";x"))
u = z.url("a")
check(wait_for(lambda: os.path.exists(f) and open(f).read() == u, 8) and not os.path.exists(g), "the URL was run as a command")
'''),
 dict(id="bad-json-logged", property="C18", edits=[(R, "                    let msg = format!(\"Refreshing {} failed: {e}\", ct_lk.account(act_id).name);", "                    let msg = format!(\n                        \"Refreshing {} failed: {e} (in {:?})\",\n                        ct_lk.account(act_id).name,\n                        body.chars().take(40).collect::<String>()\n                    );")],
      needs="a refresh response that is truncated JSON",
      breaks="The beginning of a response, which can contain an access token, is written to the log",
      demo='''
def reply(p, n):
    if p.get("grant_type") == "refresh_token":
        return 200, b'{"access_token": "TOPSECRET", "token_type":'
    return 200, {"access_token": "tok", "token_type": "Bearer", "expires_in": 3600, "refresh_token": "r"}
p = Provider(reply)
z = Pz(account("a", p))
check(z.auth("a") == "tok", "authentication")
check(z.cli("refresh", "a")[0] == 0, "refresh")
check(wait_for(lambda: "No access token" in z.cli("status")[1]), "the failed refresh left the token")
time.sleep(0.5)
check("TOPSECRET" not in z.logged(), "a token was logged")
'''),
 dict(id="mode-only-if-new", property="C19", edits=[(A, "        if !p.exists() {\n            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!(\"Can't create cache dir: {e}\")));\n        }\n        fs::set_permissions(", "        if p.is_dir() {\n            return;\n        }\n        fs::create_dir(p).unwrap_or_else(|e| fatal(&format!(\"Can't create cache dir: {e}\")));\n        fs::set_permissions(")],
      needs="a runtime directory that exists already, accessible to others",
      breaks="The socket is created in a directory that others may access",
      demo='''
p = Provider()
z = Pz(account("a", p), start=False)
d = z.path("run/pizauth")
os.makedirs(d)
os.chmod(d, 0o777)
z.start()
check(os.stat(d).st_mode & 0o777 == 0o700, "the socket's directory has mode %o" % (os.stat(d).st_mode & 0o777))
'''),
 dict(id="stale-by-info", property="C20", edits=[(A, "                if UnixStream::connect(&sock_path).is_ok() {", "                if UnixStream::connect(&sock_path).is_ok()\n                    && user_sender::server_info(&cache_path).is_ok_and(|x| x.is_object())\n                {")],
      needs="a server that is listening but does not answer `info` (simulated by a socket that is closed straight after accepting)",
      breaks="The socket of a server that accepts connections is removed",
      demo='''
p = Provider()
z = Pz(account("a", p), start=False)
os.makedirs(z.path("run/pizauth"), mode=0o700)
sk = z.path("run/pizauth/pizauth.sock")
s = socket.socket(socket.AF_UNIX)
s.bind(sk)
s.listen(50)
def serve():
    while True:
        s.accept()[0].close()
threading.Thread(target=serve, daemon=True).start()
ino = os.stat(sk).st_ino
q = subprocess.Popen([BIN, "server", "-d", "-c", z.conf], env=z.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
PROCS.append(q)
wait_for(lambda: q.poll() is not None, 5)
check(q.poll() == 1, "a second server was started")
check(os.path.exists(sk) and os.stat(sk).st_ino == ino, "the socket of a running server was removed")
'''),
 dict(id="refresh-ok-reply", property="C21", edits=[(M, "                        stream.write_all(b\"scheduled:\")?;", "                        stream.write_all(format!(\"scheduled:{act_name:}\").as_bytes())?;")],
      needs="a manual refresh of an account with a token",
      breaks="The client does not recognise the server's reply to a successful refresh request",
      demo='''
p = Provider()
z = Pz(account("a", p))
check(z.auth("a"), "authentication")
rc, out, err = z.cli("refresh", "a")
check(rc == 0, "a refresh that was scheduled is reported as an error: %r" % err)
'''),
 dict(id="status-trimmed", property="C22", edits=[(U, "        [\"ok\", x] => {\n            println!(\"{x:}\");\n            Ok(())\n        }\n        [\"error\", cause]", "        [\"ok\", x] | [\"ok:\", x] | [\"pending\", x] => {\n            println!(\"{x:}\");\n            Ok(())\n        }\n        [\"\"] => Ok(()),\n        [\"error\", cause]")],
      needs="a server that ends before it has replied to a status request",
      breaks="`pizauth status` exits with 0 although it got no reply",
      demo='''
p = Provider()
z = Pz(account("a", p), start=False)
os.makedirs(z.path("run/pizauth"), mode=0o700)
s = socket.socket(socket.AF_UNIX)
s.bind(z.path("run/pizauth/pizauth.sock"))
s.listen(5)
def serve():
    while True:
        c = s.accept()[0]
        c.recv(1000)
        c.close()
threading.Thread(target=serve, daemon=True).start()
rc, out, err = z.cli("status")
check(rc == 1 and out == "", "status succeeded without a reply")
'''),
 dict(id="none-then-listen", property="C23", edits=[(C, "                            check_not_assigned(&lexer, \"https_listen\", span, https_listen)?;\n                            https_listen = Some(None)", "                            check_not_assigned(&lexer, \"https_listen\", span, https_listen.flatten())?;\n                            https_listen = Some(None)")],
      needs="a configuration that sets https_listen to none twice",
      breaks="Giving https_listen = none twice is not an error",
      demo='''
p = Provider()
z = Pz("https_listen = none;" + account("a", p), start=False)
def starts(conf):
    z.write(conf)
    q = subprocess.Popen([BIN, "server", "-d", "-c", z.conf], env=z.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    PROCS.append(q)
    wait_for(lambda: q.poll() is not None or z.sock() and z.cli("status")[0] == 0, 6)
    r = q.poll() is None
    q.kill()
    q.wait()
    return r
check(starts("https_listen = none;" + account("a", p)), "a correct configuration was refused")
check(not starts("https_listen = none; https_listen = none;" + account("a", p)), "https_listen was accepted twice")
'''),
 dict(id="later-of-two", property="C26", edits=[(R, "                    expiry = cmp::min(expiry, t);", "                    if *access_token_expiry < t {\n                        // Such a token doesn't live for that long anyway\n                        return Some(cmp::max(expiry, *access_token_obtained));\n                    }\n                    expiry = cmp::max(expiry, cmp::min(t, *access_token_expiry));")],
      needs="a token that lives for longer than refresh_at_least",
      breaks="A token is refreshed before its expiry only, not after refresh_at_least",
      demo='''
p = Provider()
z = Pz(account("a", p, refresh_at_least="3s"))
check(z.auth("a") == "tok1", "authentication")
check(wait_for(lambda: len(p.seen) >= 2, 12), "refresh_at_least was ignored")
'''),
 dict(id="body-read", property="C27", edits=[(H, "    // Find the host field.\n    let mut host = None;\n", "    // Consume the body, if there is one: some clients don't read a response before that is done\n    if let Some(n) = req\n        .iter()\n        .filter_map(|x| x.split_once(\": \"))\n        .find(|(k, _)| k.eq_ignore_ascii_case(\"content-length\"))\n        .and_then(|(_, v)| v.parse().ok())\n    {\n        let mut body = Vec::new();\n        let mut rest = rdr.into_inner();\n        rest.set_limit(n);\n        rest.read_to_end(&mut body)?;\n    }\n\n    // Find the host field.\n    let mut host = None;\n")],
      needs="a request with a huge body",
      breaks="The body of a request is read into memory, however long it is",
      demo='''
p = Provider()
z = Pz(account("a", p))
port = z.port()
s = socket.create_connection(("127.0.0.1", port), timeout=30)
n = 300 << 20
sent = 0
try:
    s.sendall(b"GET / HTTP/1.1\\r\\nHost: localhost\\r\\nContent-Length: %d\\r\\n\\r\\n" % n)
    while sent < n - 65536:
        s.sendall(b"x" * 65536)
        sent += 65536
except OSError:
    pass
time.sleep(1)
m = int(re.search(r"VmHWM:\\s*(\\d+)", open("/proc/%d/status" % z.p.pid).read()).group(1))
check(m < 150000, "the server used %d kB (%d bytes sent)" % (m, sent))
'''),
 dict(id="host-without-space", property="C28", edits=[(H, "                host = Some(f[i + ':'.len_utf8() + j..].to_string());", "                host = Some(f[i + ':'.len_utf8() + j.max(1)..].to_string());")],
      needs="a request whose Host field is not followed by a space",
      breaks="A Host field without a value makes the thread panic",
      demo='''
p = Provider()
z = Pz(account("a", p))
for h in ("Host:", "Host:\\u20ac"):
    r = z.http(z.port(), "GET / HTTP/1.1\\r\\n%s\\r\\n\\r\\n" % h)
    check(r.startswith("HTTP/1.1 4"), "no answer to %r: %r" % (h, r))
check("panicked" not in z.logged(), "a thread panicked")
'''),
 dict(id="one-reminder-blocks", property="C29", edits=[(N, "                            if t > now {\n                                continue;\n                            }", "                            if t > now {\n                                break;\n                            }")],
      needs="an account that becomes pending while another one, which was announced already, is pending",
      breaks="An account is not announced while the reminder of another one is not due",
      demo='''
p = Provider()
f = os.path.join(DIR, "out")
names = ["a%d" % i for i in range(7)]
z = Pz('auth_notify_cmd = "echo $PIZAUTH_ACCOUNT >> %s"; auth_notify_interval = 100s;' % f + "".join(account(n, p) for n in names))
for n in names:
    z.url(n)
    time.sleep(0.3)
time.sleep(2)
l = sorted(open(f).read().split())
check(l == names, "announced: %s" % l)
'''),
 dict(id="other-address", property="C30", edits=[(H, "            let listener = TcpListener::bind(http_listen)?;\n            Ok(Some((listener.local_addr()?.port(), listener)))", "            let listener = match http_listen.split_once(':') {\n                // Avoid problems with name resolution\n                Some((\"localhost\", port)) => TcpListener::bind(format!(\"0.0.0.0:{port}\"))?,\n                _ => TcpListener::bind(http_listen)?,\n            };\n            Ok(Some((listener.local_addr()?.port(), listener)))")],
      needs="http_listen with the host name localhost",
      breaks="The HTTP server listens on all addresses although only the loopback address is configured",
      demo='''
p = Provider()
z = Pz('http_listen = "localhost:0";' + account("a", p))
port = z.port()
socket.create_connection(("127.0.0.1", port), timeout=5).close()
try:
    socket.create_connection(("127.0.0.2", port), timeout=5).close()
except OSError:
    sys.exit(0)
give_up("the server listens on 127.0.0.2, too")
'''),
 dict(id="dump-drops-refresh", property="C32", edits=[(S, "                refresh_token: refresh_token.clone(),\n                ongoing_refresh: false,\n                consecutive_refresh_fails: 0,\n                last_refresh_attempt: None,\n            },\n        }\n    }\n}", "                // There is no point in refreshing a token that expired\n                refresh_token: refresh_token\n                    .clone()\n                    .filter(|_| *access_token_expiry > SystemTime::now()),\n                ongoing_refresh: false,\n                consecutive_refresh_fails: 0,\n                last_refresh_attempt: None,\n            },\n        }\n    }\n}")],
      needs="a dump that is restored after the token expired",
      breaks="The refresh token is not restored if the access token has expired",
      demo='''
p = Provider(lambda q, n: (200, {"access_token": "tok%d" % n, "token_type": "Bearer", "expires_in": 3 if n == 1 else 3600, "refresh_token": "r"}))
y = Pz(account("a", p, refresh_before_expiry="0s"))
y.redirect(y.url("a"))
check(wait_for(lambda: "Active" in y.cli("status")[1]), "authentication")
d = y.cli("dump")[1]
y.p.kill()
time.sleep(3.5)
z = Pz(account("a", p))
check(z.cli("restore", inp=d)[0] == 0, "restore")
check(wait_for(lambda: z.show("a"), 10), "the restored token was not refreshed")
'''),
 dict(id="revoke-not-pending", property="C33", edits=[(M, "                    ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    drop(ct_lk);\n\n                    pstate", "                    if !matches!(\n                        ct_lk.tokenstate(act_id),\n                        TokenState::Pending {\n                            last_notification: Some(_),\n                            ..\n                        }\n                    ) {\n                        ct_lk.tokenstate_replace(act_id, TokenState::Empty);\n                    }\n                    drop(ct_lk);\n\n                    pstate")],
      needs="a revocation of an account whose authentication is pending and was announced to the user",
      breaks="A revocation does not end a pending authentication",
      demo='''
p = Provider()
z = Pz('auth_notify_cmd = "true";' + account("a", p))
u = z.url("a")
check(wait_for(lambda: "last notification" in z.cli("status")[1]), "not announced")
check(z.cli("revoke", "a")[0] == 0, "revoke")
check("No access token" in z.cli("status")[1], "the authentication is still pending")
z.redirect(u)
time.sleep(1)
check(not p.seen, "a revoked authentication was completed")
'''),
 dict(id="bad-json-stuck", property="C34", edits=[(H, "    let parsed = match serde_json::from_str::<Value>(&body) {\n        Ok(x) => x,\n        Err(e) => {\n            fail(pstate, act_id, &format!(\"Invalid JSON: {e}\"))?;\n            return Ok(());\n        }\n    };\n", "    let parsed = serde_json::from_str::<Value>(&body)?;\n")],
      needs="a provider that answers a code exchange with something other than JSON",
      breaks="A failed exchange leaves the authentication pending and is not reported",
      demo='''
p = Provider(lambda q, n: (200, b"<html>sorry</html>"))
f = os.path.join(DIR, "out")
z = Pz('error_notify_cmd = "echo $PIZAUTH_ACCOUNT >> %s";' % f + account("a", p))
z.redirect(z.url("a"))
check(wait_for(lambda: len(p.seen) == 1), "no exchange")
check(wait_for(lambda: "No access token" in z.cli("status")[1], 5), "the authentication is still pending")
check(wait_for(lambda: os.path.exists(f), 5), "the failure was not reported")
'''),
 dict(id="handshake-in-loop", property="C35", edits=[(H, "            let mut conn = conn.unwrap();\n\n            let pstate", "            let mut conn = conn.unwrap();\n            // Don't start a thread for clients that don't speak TLS\n            if conn.complete_io(&mut stream).is_err() {\n                continue;\n            }\n\n            let pstate")],
      needs="a client that connects to the HTTPS port and sends nothing",
      breaks="A client that does not complete its TLS handshake blocks all others",
      demo='''
import ssl
p = Provider()
z = Pz(account("a", p))
port = int(json.loads(z.cli("info", "-j")[1])["server_info"]["https_port"])
idle = socket.create_connection(("127.0.0.1", port))
time.sleep(0.5)
c = ssl.create_default_context()
c.check_hostname = False
c.verify_mode = ssl.CERT_NONE
try:
    s = c.wrap_socket(socket.create_connection(("127.0.0.1", port), timeout=8), server_hostname="localhost")
    s.sendall(b"GET / HTTP/1.1\\r\\nHost: localhost:%d\\r\\n\\r\\n" % port)
    b = s.recv(100)
except (OSError, ssl.SSLError) as e:
    give_up("no answer: %s" % e)
check(b.startswith(b"HTTP/1.1 4"), "answer: %r" % b)
'''),
 dict(id="time-saturates", property="C24", edits=[(C, "            'd' => num.checked_mul(86400).ok_or(\"Number too big\")?,", "            'd' => num.saturating_mul(86400),")],
      needs="a time in days that does not fit into 64 bits of seconds",
      breaks="A time that is too large is accepted and silently replaced by another one",
      demo='''
p = Provider()
z = Pz(account("a", p))
z.write(account("a", p, refresh_at_least="99999999999999999d"))
check(z.cli("reload")[0] == 1, "a time that is too large was accepted")
z.write(account("a", p, refresh_at_least="7d"))
check(z.cli("reload")[0] == 0, "a correct configuration was refused")
'''),
 dict(id="restore-leftovers", property="C25", edits=[(S, "        for (act_name, ts) in restore.drain() {\n", "        let unknown = d\n            .accounts\n            .keys()\n            .any(|x| !self.config.accounts.contains_key(x));\n        for (act_name, ts) in restore.drain() {\n"), (S, "            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;\n        }\n", "            self.details[ts_idx].1 = AccountId::new(self);\n            self.details[ts_idx].2 = ts;\n        }\n        if unknown {\n            return Err(\"Some accounts could not be restored\".into());\n        }\n")],
      needs="a dump with an account that is no longer configured",
      breaks="A restore that is reported as failed has restored some accounts",
      demo='''
p = Provider()
y = Pz(account("a", p) + account("b", p))
for n in "ab":
    check(y.auth(n), "authentication")
d = y.cli("dump")[1]
z = Pz(account("a", p))
rc = z.cli("restore", inp=d)[0]
check((rc, z.show("a") is not None) in ((0, True), (1, False)), "exit status %d of restore but token: %s" % (rc, z.show("a")))
'''),
 dict(id="https-optional", property="C31", edits=[(M, "    let (https_port, https_state, certified_key) = match http_server::https_server_setup(&conf)? {\n        Some((x, y, z)) => (Some(x), Some(y), Some(z)),\n        None => (None, None, None),\n    };\n", "    let (https_port, https_state, certified_key) = match http_server::https_server_setup(&conf) {\n        Ok(Some((x, y, z))) => (Some(x), Some(y), Some(z)),\n        Ok(None) => (None, None, None),\n        Err(e)\n            if http_port.is_some()\n                && e.downcast_ref::<std::io::Error>()\n                    .is_some_and(|x| x.kind() == std::io::ErrorKind::AddrInUse) =>\n        {\n            // One server is enough\n            warn!(\"Cannot start HTTPS server: {e:}\");\n            (None, None, None)\n        }\n        Err(e) => return Err(e),\n    };\n")],
      needs="an address for HTTPS that is in use when the server starts",
      breaks="The server runs although it could not start one of its services",
      demo='''
p = Provider()
s = socket.socket()
s.bind(("127.0.0.1", 0))
s.listen(1)
z = Pz('https_listen = "127.0.0.1:%d";' % s.getsockname()[1] + account("a", p), start=False)
q = subprocess.Popen([BIN, "server", "-d", "-c", z.conf], env=z.env, cwd=z.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
PROCS.append(q)
try:
    rc = q.wait(10)
except subprocess.TimeoutExpired:
    give_up("the server runs without its HTTPS listener")
check(rc == 1, "exit status %d" % rc)
'''),
]
