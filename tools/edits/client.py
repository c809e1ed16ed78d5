M = "src/main.rs"
U = "src/user_sender.rs"
V = "src/server/mod.rs"
H = "src/server/http_server.rs"
def m(name, ids, *e): return dict(name="cl-" + name, kind="mut", ids=ids.split(), edits=list(e))
def r(name, *e): return dict(name="cl-ref-" + name, kind="ref", edits=list(e))
SHOW = """        ["access_token", x] => {
            println!("{x:}");
            Ok(())
        }
"""
REFRESH = """        ["scheduled", ""] => Ok(()),
        ["error", cause] => Err(cause.into()),
"""
RELOAD = """        .write_all(b"reload:")
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;

    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["ok", ""] => Ok(()),
        ["error", cause] => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
"""
RESTORE = """    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["ok", ""] => Ok(()),
        ["error", msg] => Err(msg.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
"""
STATUS = """        ["ok", x] => {
            println!("{x:}");
            Ok(())
        }
        ["error", cause] => Err(cause.into()),
"""
SHUT = """        .write_all(b"shutdown:")
        .map_err(|_| "Socket not writeable")?;
"""
RUNNING = """            if sock_path.exists() {
                // Is an existing authenticator running?
                if UnixStream::connect(&sock_path).is_ok() {
                    eprintln!("pizauth authenticator already running");
                    process::exit(1);
                }
                fs::remove_file(&sock_path).ok();
            }
"""
CONF = """            let conf_path = conf_path(&matches);
            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));

            let daemonise"""
THREAD = """            let sock_path_cl = sock_path.clone();
            thread::spawn(move || loop {
                thread::sleep(Duration::from_secs(6 * 60 * 60));
                let _ = utimensat(
                    None,
                    &sock_path_cl,
                    &TimeSpec::UTIME_NOW,
                    &TimeSpec::UTIME_NOW,
                    UtimensatFlags::NoFollowSymlink,
                );
            });

"""
MD = """    let md = |p: &PathBuf| {
        if !p.exists() {
            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
        }
        fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {
            fatal(&format!(
                "Can't set permissions for {} to 0700 (octal)",
                p.to_str()
                    .unwrap_or("<path cannot be represented as UTF-8>")
            ))
        });
    };

    md(&p);
    p.push(PIZAUTH_CACHE_LEAF);
    md(&p);
"""
LOOP = """    let listener = UnixListener::bind(sock_path)?;
    for stream in listener.incoming().flatten() {
        let pstate = Arc::clone(&pstate);
        if let Err(e) = request(pstate, stream) {
            warn!("{e:}");
        }
    }
"""
SERVICES = """    eventer.eventer(Arc::clone(&pstate))?;
    refresher.refresher(Arc::clone(&pstate))?;
    notifier.notifier(Arc::clone(&pstate))?;
"""
STATUSCMD = """            let matches = opts.parse(&args[2..]).unwrap_or_else(|_| usage());
            if matches.opt_present("h") {
                usage();
            }
            if !matches.free.is_empty() {
                usage();
            }
"""
REFCMD = """            if let Err(e) = user_sender::refresh(&cache_path, &matches.free[0], with_url) {
                error!("{e:}");
                process::exit(1);
            }
"""
PARSE = """    let (cmd, rest) = {
        let len = buf
            .iter()
            .map(|b| *b as char)
            .take_while(|c| *c != ':')
            .count();
        if len == buf.len() {
            return Err(format!(
                "Syntactically invalid request '{}'",
                std::str::from_utf8(&buf).unwrap_or("<can't represent as UTF-8")
            )
            .into());
        }
        (std::str::from_utf8(&buf[..len])?, &buf[len + 1..])
    };
"""
DUMPMAIN = """                    if let Err(e) = stdout().write_all(&d).and_then(|()| stdout().flush()) {
                        error!("{e:}");
                        process::exit(1);
                    }
"""
EDITS = [
    # C18
    m("log-reply", "C18", (U, """        ["pending", url] => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        ["error", cause] => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
}

pub fn shutdown""", """        ["pending", url] => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        ["error", cause] => Err(cause.into()),
        ["access_token", _, ..] => Err(format!("Malformed response '{rtn:}'").into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
}

pub fn shutdown"""), (U, SHOW, "        [\"access_token\", x] if !x.contains(' ') => {\n            println!(\"{x:}\");\n            Ok(())\n        }\n")),
    m("debug-token", "C18", (U, SHOW, SHOW.replace("            println!", "            log::debug!(\"Got token {x:}\");\n            println!"))),
    m("eprint-dump", "C18", (U, "    Ok(buf)\n", "    log::trace!(\"{buf:?}\");\n    Ok(buf)\n")),
    # C19
    m("mode-755", "C19", (M, "from_mode(0o700)", "from_mode(0o755)")),
    m("mode-ignored", "C19", (M, """.unwrap_or_else(|_| {
            fatal(&format!(
                "Can't set permissions for {} to 0700 (octal)",
                p.to_str()
                    .unwrap_or("<path cannot be represented as UTF-8>")
            ))
        });
    };""", ".ok();\n    };")),
    m("mode-when-new", "C19", (M, MD, MD.replace("""        }
        fs::set_permissions(p,""", """        } else {
            return;
        }
        fs::set_permissions(p,"""))),
    m("parent-only", "C19", (M, "    p.push(PIZAUTH_CACHE_LEAF);\n    md(&p);\n", "    p.push(PIZAUTH_CACHE_LEAF);\n    if !p.exists() {\n        fs::create_dir(&p).ok();\n    }\n")),
    m("leaf-only", "C19", (M, "    md(&p);\n    p.push(PIZAUTH_CACHE_LEAF);\n    md(&p);\n", "    if !p.exists() {\n        fs::create_dir_all(&p).ok();\n    }\n    p.push(PIZAUTH_CACHE_LEAF);\n    md(&p);\n")),
    m("no-create", "C19", (M, "        if !p.exists() {\n            fs::create_dir(p)", "        if !p.exists() && p.parent().is_some() {\n            fs::create_dir(p)")),
    m("sock-elsewhere", "C19 C20", (V, "    let mut p = cache_path.to_owned();\n", "    let mut p = match std::env::var_os(\"PIZAUTH_SOCK_DIR\") {\n        Some(x) => PathBuf::from(x),\n        None => cache_path.to_owned(),\n    };\n")),
    m("private-late", "C19", (M, "    md(&p);\n    p.push(PIZAUTH_CACHE_LEAF);\n    md(&p);\n\n    p\n", "    if !p.exists() {\n        md(&p);\n    }\n    p.push(PIZAUTH_CACHE_LEAF);\n    md(&p);\n\n    p\n")),
    # C20
    m("always-remove", "C20", (M, RUNNING, RUNNING.replace("                if UnixStream::connect(&sock_path).is_ok() {\n                    eprintln!(\"pizauth authenticator already running\");\n                    process::exit(1);\n                }\n                fs::remove_file(&sock_path).ok();\n", "                fs::remove_file(&sock_path).ok();\n"))),
    m("remove-before", "C20", (M, RUNNING, RUNNING.replace("                fs::remove_file(&sock_path).ok();\n", "").replace("                // Is an", "                fs::rename(&sock_path, sock_path.with_extension(\"old\")).ok();\n                // Is an"))),
    m("running-exit0", "C20", (M, "already running\");\n                    process::exit(1);", "already running\");\n                    process::exit(0);")),
    m("running-only-d", "C20", (M, "if UnixStream::connect(&sock_path).is_ok() {", "if !matches.opt_present(\"d\") && UnixStream::connect(&sock_path).is_ok() {")),
    m("check-after-daemon", "C20", (M, RUNNING, ""), (M, "            // The XDG spec says", RUNNING + "            // The XDG spec says")),
    m("bind-removes", "C20", (M, "                if UnixStream::connect(&sock_path).is_ok() {\n                    eprintln!(\"pizauth authenticator already running\");\n                    process::exit(1);\n                }\n", "                if UnixStream::connect(&sock_path).is_ok() && conf_path(&matches).exists() {\n                    eprintln!(\"pizauth authenticator already running\");\n                    process::exit(1);\n                }\n")),
    # C21
    m("reload-verb", "C21", (U, "b\"reload:\"", "b\"reload\"")),
    m("u-swapped", "C21", (U, "pub fn refresh(cache_path: &Path, account: &str, with_url: bool) -> Result<(), Box<dyn Error>> {\n    let sock_path = sock_path(cache_path);\n    let with_url = if with_url {", "pub fn refresh(cache_path: &Path, account: &str, with_url: bool) -> Result<(), Box<dyn Error>> {\n    let sock_path = sock_path(cache_path);\n    let with_url = if !with_url {")),
    m("u-ignored", "C21", (M, "let with_url = !matches.opt_present(\"u\");", "let with_url = !matches.opt_present(\"u\") || matches.opt_count(\"v\") > 0;")),
    m("withurl-renamed", "C21", (V, """                        if *with_url == "withurl" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {
""", """                        if *with_url == "url" {
                            stream.write_all(format!("pending:{url:}").as_bytes())?;
                        } else {
                            stream.write_all(b"pending:")?;
                        }
                    }
                    TokenState::Active { .. } => {
""")),
    m("scheduled-renamed", "C21", (V, "b\"scheduled:\"", "b\"ok:\"")),
    m("pending-lost", "C21", (U, """        ["pending", url] => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        ["scheduled", ""] => Ok(()),""", """        ["scheduled", ""] => Ok(()),""")),
    m("pending-nourl", "C21", (U, """        ["pending", url] => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        ["scheduled", ""] => Ok(()),""", """        ["pending", _] => {
            Err("Access token unavailable until authorised".into())
        }
        ["scheduled", ""] => Ok(()),""")),
    m("error-dropped", "C21", (U, RESTORE, RESTORE.replace("[\"error\", msg] => Err(msg.into()),", "[\"error\", _] => Err(\"restore failed\".into()),"))),
    m("error-warn", "C21", (M, """            if let Err(e) = user_sender::revoke(&cache_path, &matches.free[0]) {
                error!("{e:}");""", """            if let Err(e) = user_sender::revoke(&cache_path, &matches.free[0]) {
                log::warn!("{e:}");""")),
    m("split-all", "C21", (V, "            if let [with_url, act_name] = &rest.splitn(2, ' ').collect::<Vec<_>>()[..] {\n                let ct_lk = pstate.ct_lock();\n                let act_id = match ct_lk.validate_act_name(act_name) {\n                    Some(x) => x,\n                    None => {\n                        drop(ct_lk);\n                        stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n                        return Ok(());\n                    }\n                };\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => {", "            if let [with_url, act_name] = &rest.split(' ').collect::<Vec<_>>()[..] {\n                let ct_lk = pstate.ct_lock();\n                let act_id = match ct_lk.validate_act_name(act_name) {\n                    Some(x) => x,\n                    None => {\n                        drop(ct_lk);\n                        stream.write_all(format!(\"error:No account '{act_name:}'\").as_bytes())?;\n                        return Ok(());\n                    }\n                };\n                match ct_lk.tokenstate(act_id) {\n                    TokenState::Empty => {")),
    m("last-colon", "C21", (V, "            .take_while(|c| *c != ':')\n", "            .take_while(|c| *c != ' ')\n")),
    m("off-by-one", "C21", (V, "&buf[len + 1..])", "&buf[len + 2..])")),
    m("loop-ends", "C21", (V, LOOP, LOOP.replace("            warn!(\"{e:}\");\n", "            warn!(\"{e:}\");\n            break;\n"))),
    m("loop-question", "C21", (V, LOOP, LOOP.replace("        if let Err(e) = request(pstate, stream) {\n            warn!(\"{e:}\");\n        }\n", "        request(pstate, stream)?;\n"))),
    m("loop-first", "C21", (V, "listener.incoming().flatten() {\n        let pstate = Arc::clone(&pstate);\n        if let Err", "listener.incoming().flatten().take(100000) {\n        let pstate = Arc::clone(&pstate);\n        if let Err")),
    m("raise-unknown", "C21", (V, "        x => stream.write_all(format!(\"error:Unknown command '{x}'\").as_bytes())?,\n", "        x => {\n            stream.write_all(format!(\"error:Unknown command '{x}'\").as_bytes())?;\n            raise(Signal::SIGTERM).ok();\n        }\n")),
    m("unknown-ok", "C21", (V, "error:Unknown command", "ok:Unknown command")),
    m("reload-error-unprefixed", "C21", (V, "                Err(e) => stream.write_all(format!(\"error:{e:}\").as_bytes())?,\n            }\n            return Ok(());\n        }\n        \"refresh\"", "                Err(e) => stream.write_all(format!(\"{e:}\").as_bytes())?,\n            }\n            return Ok(());\n        }\n        \"refresh\"")),
    m("restore-trim", "C21", (U, "    stream.write_all(&buf).map_err", "    stream.write_all(b\":\").ok();\n    stream.write_all(&buf).map_err")),
    # C22
    m("pending-ok", "C22", (U, REFRESH, REFRESH.replace('["scheduled", ""] => Ok(()),', '["scheduled", ""] | ["busy", ""] => Ok(()),'))),
    m("reload-any", "C22", (U, RELOAD, RELOAD.replace('_ => Err(format!("Malformed response \'{rtn:}\'").into()),', '[""] => Ok(()),\n        _ => Err(format!("Malformed response \'{rtn:}\'").into()),'))),
    m("restore-partial", "C22", (U, RESTORE, RESTORE.replace('["ok", ""]', '["ok", _]'))),
    m("show-prints-twice", "C22", (U, SHOW, SHOW.replace("            println!(\"{x:}\");\n", "            print!(\"{account:} \");\n            println!(\"{x:}\");\n"))),
    m("show-prints-error", "C22", (U, """        ["error", cause] => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
}

pub fn shutdown""", """        ["error", cause] => {
            println!();
            Err(cause.into())
        }
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
}

pub fn shutdown""")),
    m("status-unprinted", "C22", (U, STATUS, STATUS.replace('            println!("{x:}");\n', '            if !x.is_empty() {\n                println!("{x:}");\n            }\n').replace('if !x.is_empty()', 'if x.contains(\':\')'))),
    m("status-no-exit", "C22", (M, """            if let Err(e) = user_sender::status(cache_path.as_path()) {
                error!("{e:}");
                process::exit(1);
""", """            if let Err(e) = user_sender::status(cache_path.as_path()) {
                error!("{e:}");
""")),
    m("refresh-exit2", "C22", (M, REFCMD, REFCMD.replace("exit(1)", "exit(2)"))),
    m("dump-noflush", "C22", (M, DUMPMAIN, DUMPMAIN.replace(".and_then(|()| stdout().flush())", ""))),
    m("dump-write", "C22", (M, DUMPMAIN, DUMPMAIN.replace("stdout().write_all(&d).and_then(|()|", "stdout().write(&d).and_then(|_|"))),
    m("dump-empty", "C22", (U, "    if buf.is_empty() {\n        // If the server can't create a dump, it closes the connection.\n        return Err(\"pizauth authenticator failed to create a dump\".into());\n    }\n", "")),
    m("shutdown-ignored", "C22", (U, SHUT, "        .write_all(b\"shutdown:\")\n        .ok();\n")),
    m("usage-late", "C22", (M, STATUSCMD, STATUSCMD.replace("            if !matches.free.is_empty() {\n                usage();\n            }\n", ""))),
    m("usage-many", "C22", (M, "            if matches.opt_present(\"h\") || matches.free.len() != 1 {\n                usage();\n            }\n            stderrlog::new()\n                .module(module_path!())\n                .verbosity(matches.opt_count(\"v\"))\n                .init()\n                .unwrap();\n            let with_url", "            if matches.opt_present(\"h\") || matches.free.is_empty() {\n                usage();\n            }\n            stderrlog::new()\n                .module(module_path!())\n                .verbosity(matches.opt_count(\"v\"))\n                .init()\n                .unwrap();\n            let with_url")),
    m("usage-zero", "C22", (M, "    process::exit(1)\n}\n\nfn cache_path", "    process::exit(0)\n}\n\nfn cache_path")),
    m("help-connects", "C22", (M, STATUSCMD, STATUSCMD.replace("            if matches.opt_present(\"h\") {\n                usage();\n            }\n", ""))),
    m("success-fails", "C22", (U, REFRESH, REFRESH.replace('["scheduled", ""] => Ok(()),', '["scheduled", ""] if with_url == "withurl" => Ok(()),'))),
    # C31
    m("daemon-first", "C31", (M, CONF, CONF.replace("            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));\n", "")), (M, "            // The XDG spec says", "            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));\n            // The XDG spec says")),
    m("thread-first", "C31", (M, THREAD, ""), (M, "            let daemonise", THREAD + "            let daemonise")),
    m("conf-silent", "C31", (M, "Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));\n\n            let daemonise", "Config::from_path(&conf_path).unwrap_or_else(|_| process::exit(1));\n\n            let daemonise")),
    m("no-notifier", "C31", (V, SERVICES, SERVICES.replace("    notifier.notifier(Arc::clone(&pstate))?;\n", "    if https_port.is_none() {\n        notifier.notifier(Arc::clone(&pstate))?;\n    }\n"))),
    m("services-late", "C31", (V, SERVICES, ""), (V, "    Ok(())\n}\n", "    Ok(())\n}\n")) if 0 else
    m("refresher-late", "C31", (V, SERVICES, SERVICES.replace("    refresher.refresher(Arc::clone(&pstate))?;\n", "")), (V, LOOP, LOOP.replace("    for stream", "    let mut first = true;\n    for stream").replace("        let pstate = Arc::clone(&pstate);\n", "        if first {\n            Arc::clone(&refresher).refresher(Arc::clone(&pstate))?;\n            first = false;\n        }\n        let pstate = Arc::clone(&pstate);\n"))),
    m("https-ignored", "C31", (V, "    if let (Some(x), Some(y)) = (https_state, certified_key) {\n        http_server::https_server(Arc::clone(&pstate), x, y)?;\n    }\n", "    if let (Some(x), Some(y), None) = (https_state, certified_key, http_port) {\n        http_server::https_server(Arc::clone(&pstate), x, y)?;\n    }\n")),
    m("http-bind-ok", "C31", (H, "            let listener = TcpListener::bind(http_listen)?;\n            Ok(Some((listener.local_addr()?.port(), listener)))\n", "            match TcpListener::bind(http_listen) {\n                Ok(listener) => Ok(Some((listener.local_addr()?.port(), listener))),\n                Err(e) => {\n                    warn!(\"{e:}\");\n                    Ok(None)\n                }\n            }\n")),
    m("server-error-0", "C31", (M, "            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {\n                error!(\"{e:}\");\n                process::exit(1);\n            }\n", "            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {\n                error!(\"{e:}\");\n            }\n")),
    # behaviour kept
    r("md-fn", (M, MD, """    make_private(&p);
    p.push(PIZAUTH_CACHE_LEAF);
    make_private(&p);
"""), (M, "fn cache_path() -> PathBuf {", """fn make_private(p: &std::path::Path) {
    if !p.exists() {
        if let Err(e) = fs::create_dir(p) {
            fatal(&format!("Can't create cache dir: {e}"));
        }
    }
    if fs::set_permissions(p, fs::Permissions::from_mode(0o700)).is_err() {
        let name = p
            .to_str()
            .unwrap_or("<path cannot be represented as UTF-8>");
        fatal(&format!("Can't set permissions for {name} to 0700 (octal)"));
    }
}

fn cache_path() -> PathBuf {""")),
    r("md-join", (M, MD, MD.replace("    md(&p);\n    p.push(PIZAUTH_CACHE_LEAF);\n    md(&p);\n", "    md(&p);\n    let p = p.join(PIZAUTH_CACHE_LEAF);\n    md(&p);\n"))),
    r("send-helper", (U, "pub fn reload(cache_path: &Path) -> Result<(), Box<dyn Error>> {\n    let sock_path = sock_path(cache_path);\n    let mut stream = UnixStream::connect(sock_path)\n        .map_err(|_| \"pizauth authenticator not running or not responding\")?;\n    stream\n" + RELOAD + "}\n", """/// Send `req` to the server and return its complete reply.
fn exchange(cache_path: &Path, req: &[u8]) -> Result<String, Box<dyn Error>> {
    let mut stream = UnixStream::connect(sock_path(cache_path))
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream
        .write_all(req)
        .map_err(|_| "Socket not writeable")?;
    stream.shutdown(Shutdown::Write)?;
    let mut rtn = String::new();
    stream.read_to_string(&mut rtn)?;
    Ok(rtn)
}

fn expect_ok(rtn: &str) -> Result<(), Box<dyn Error>> {
    match rtn.split_once(':') {
        Some(("ok", "")) => Ok(()),
        Some(("error", cause)) => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
}

pub fn reload(cache_path: &Path) -> Result<(), Box<dyn Error>> {
    expect_ok(&exchange(cache_path, b"reload:")?)
}
""")),
    r("split-once", (U, """    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["access_token", x] => {
            println!("{x:}");
            Ok(())
        }
        ["pending", url] => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        ["error", cause] => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
""", """    match rtn.split_once(':') {
        Some(("access_token", x)) => {
            println!("{x:}");
            Ok(())
        }
        Some(("pending", url)) => {
            Err(format!("Access token unavailable until authorised with URL {url:}").into())
        }
        Some(("error", cause)) => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
""")),
    r("ifs", (U, """    match rtn.splitn(2, ':').collect::<Vec<_>>()[..] {
        ["ok", x] => {
            println!("{x:}");
            Ok(())
        }
        ["error", cause] => Err(cause.into()),
        _ => Err(format!("Malformed response '{rtn:}'").into()),
    }
""", """    if let Some(x) = rtn.strip_prefix("ok:") {
        println!("{x:}");
        return Ok(());
    }
    if let Some(cause) = rtn.strip_prefix("error:") {
        return Err(cause.into());
    }
    Err(format!("Malformed response '{rtn:}'").into())
""")),
    r("run-helper", (M, REFCMD, "            check(user_sender::refresh(&cache_path, &matches.free[0], with_url));\n"),
      (M, """            if let Err(e) = user_sender::revoke(&cache_path, &matches.free[0]) {
                error!("{e:}");
                process::exit(1);
            }
""", "            check(user_sender::revoke(&cache_path, &matches.free[0]));\n"),
      (M, """            if let Err(e) = user_sender::status(cache_path.as_path()) {
                error!("{e:}");
                process::exit(1);
            }
""", "            check(user_sender::status(&cache_path));\n"),
      (M, "fn cache_path() -> PathBuf {", "/// Exit with an error if `r` is one.\nfn check(r: Result<(), Box<dyn std::error::Error>>) {\n    if let Err(e) = r {\n        error!(\"{e:}\");\n        process::exit(1);\n    }\n}\n\nfn cache_path() -> PathBuf {")),
    r("log-helper", (M, """            stderrlog::new()
                .module(module_path!())
                .verbosity(matches.opt_count("v"))
                .init()
                .unwrap();
            match user_sender::dump""", """            init_log(&matches);
            match user_sender::dump"""), (M, "fn cache_path() -> PathBuf {", "fn init_log(matches: &getopts::Matches) {\n    stderrlog::new()\n        .module(module_path!())\n        .verbosity(matches.opt_count(\"v\"))\n        .init()\n        .unwrap();\n}\n\nfn cache_path() -> PathBuf {")),
    r("running-fn", (M, RUNNING, "            clear_socket(&sock_path);\n"), (M, "fn conf_path(", """/// Remove a stale socket; exit if a server is still listening on it.
fn clear_socket(sock_path: &std::path::Path) {
    if !sock_path.exists() {
        return;
    }
    match UnixStream::connect(sock_path) {
        Ok(_) => {
            eprintln!("pizauth authenticator already running");
            process::exit(1);
        }
        Err(_) => {
            fs::remove_file(sock_path).ok();
        }
    }
}

fn conf_path(""")),
    r("running-flag", (M, RUNNING, """            if sock_path.exists() {
                // Is an existing authenticator running?
                let running = UnixStream::connect(&sock_path).is_ok();
                if running {
                    fatal("pizauth authenticator already running");
                }
                let _ = fs::remove_file(&sock_path);
            }
""")),
    r("conf-match", (M, "            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));\n\n            let daemonise", """            let conf = match Config::from_path(&conf_path) {
                Ok(x) => x,
                Err(m) => fatal(&m),
            };

            let daemonise""")),
    r("services-order", (V, SERVICES, """    notifier.notifier(Arc::clone(&pstate))?;
    eventer.eventer(Arc::clone(&pstate))?;
    refresher.refresher(Arc::clone(&pstate))?;
""")),
    r("services-fn", (V, SERVICES, "    start_services(&pstate, &eventer, &refresher, &notifier)?;\n"), (V, "pub fn server(conf_path", """fn start_services(
    pstate: &Arc<AuthenticatorState>,
    eventer: &Arc<Eventer>,
    refresher: &Arc<Refresher>,
    notifier: &Arc<Notifier>,
) -> Result<(), Box<dyn Error>> {
    Arc::clone(eventer).eventer(Arc::clone(pstate))?;
    Arc::clone(refresher).refresher(Arc::clone(pstate))?;
    Arc::clone(notifier).notifier(Arc::clone(pstate))?;
    Ok(())
}

pub fn server(conf_path""")),
    r("loop-accept", (V, LOOP, """    let listener = UnixListener::bind(sock_path)?;
    loop {
        let stream = match listener.accept() {
            Ok((x, _)) => x,
            Err(_) => continue,
        };
        if let Err(e) = request(Arc::clone(&pstate), stream) {
            warn!("{e:}");
        }
    }
"""), (V, "            warn!(\"{e:}\");\n        }\n    }\n\n    Ok(())\n}\n", "            warn!(\"{e:}\");\n        }\n    }\n}\n")),
    r("loop-iflet", (V, LOOP, """    let listener = UnixListener::bind(sock_path)?;
    for stream in listener.incoming() {
        if let Ok(stream) = stream {
            if let Err(e) = request(Arc::clone(&pstate), stream) {
                warn!("{e:}");
            }
        }
    }
""")),
    r("parse-position", (V, PARSE, """    let (cmd, rest) = match buf.iter().position(|b| *b == b':') {
        Some(len) => (std::str::from_utf8(&buf[..len])?, &buf[len + 1..]),
        None => {
            return Err(format!(
                "Syntactically invalid request '{}'",
                std::str::from_utf8(&buf).unwrap_or("<can't represent as UTF-8")
            )
            .into());
        }
    };
""")),
    r("parse-fn", (V, PARSE, "    let (cmd, rest) = split_request(&buf)?;\n"), (V, "fn request(pstate", "/// Split a request into its command and argument.\nfn split_request(buf: &[u8]) -> Result<(&str, &[u8]), Box<dyn Error>> {\n    let len = buf\n        .iter()\n        .map(|b| *b as char)\n        .take_while(|c| *c != ':')\n        .count();\n    if len == buf.len() {\n        return Err(format!(\n            \"Syntactically invalid request '{}'\",\n            std::str::from_utf8(buf).unwrap_or(\"<can't represent as UTF-8\")\n        )\n        .into());\n    }\n    Ok((std::str::from_utf8(&buf[..len])?, &buf[len + 1..]))\n}\n\nfn request(pstate")),
    r("u-const", (U, "    let with_url = if with_url { \"withurl\" } else { \"withouturl\" };\n    let mut stream = UnixStream::connect(sock_path)\n        .map_err(|_| \"pizauth authenticator not running or not responding\")?;\n    stream\n        .write_all(format!(\"refresh:{with_url:} {account:}\").as_bytes())\n        .map_err(|_| \"Socket not writeable\")?;\n", "    let mut stream = UnixStream::connect(sock_path)\n        .map_err(|_| \"pizauth authenticator not running or not responding\")?;\n    let req = match with_url {\n        true => format!(\"refresh:withurl {account}\"),\n        false => format!(\"refresh:withouturl {account}\"),\n    };\n    stream\n        .write_all(req.as_bytes())\n        .map_err(|_| \"Socket not writeable\")?;\n")),
]
