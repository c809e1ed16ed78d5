R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
def mut(n, ids, *ed): return dict(name="m7-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="m7-ref-"+n, kind="ref", ids=[], edits=list(ed))
CP='''    match matches.opt_str("c") {
        Some(p) => PathBuf::from(&p),
        None => {
            let mut p = PathBuf::new();
            match env::var_os("XDG_CONFIG_HOME") {
                Some(s) => p.push(s),
                None => match env::var_os("HOME") {
                    Some(s) => {
                        p.push(s);
                        p.push(".config")
                    }
                    None => fatal("Neither $XDG_CONFIG_HOME or $HOME set"),
                },
            }
            p.push(PIZAUTH_CONF_LEAF);
            if !p.is_file() {
                fatal(&format!(
                    "No config file found at {}",
                    p.to_str().unwrap_or("pizauth.conf")
                ));
            }
            p
        }
    }
'''
CHK='''    if !p.is_file() {
        fatal(&format!(
            "No config file found at {}",
            p.to_str().unwrap_or("pizauth.conf")
        ));
    }
    p
'''
SRV='''            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {'''
RL='''            match Config::from_path(&pstate.conf_path) {'''
EDITS=[
mut("chdir-root","C43",(A,"daemon(true, false)","daemon(false, false)")),
mut("home-first","C43",(A,CP,'''    if let Some(p) = matches.opt_str("c") {
        return PathBuf::from(&p);
    }
    let mut p = PathBuf::new();
    match env::var_os("HOME") {
        Some(s) => {
            p.push(s);
            p.push(".config")
        }
        None => match env::var_os("XDG_CONFIG_HOME") {
            Some(s) => p.push(s),
            None => fatal("Neither $XDG_CONFIG_HOME or $HOME set"),
        },
    }
    p.push(PIZAUTH_CONF_LEAF);
'''+CHK)),
mut("default-if-there","C43",(A,'''    match matches.opt_str("c") {
        Some(p) => PathBuf::from(&p),
        None => {''','''    let dflt = env::var_os("XDG_CONFIG_HOME").map(|s| {
        let mut p = PathBuf::from(s);
        p.push(PIZAUTH_CONF_LEAF);
        p
    });
    if let Some(p) = dflt {
        if p.is_file() {
            return p;
        }
    }
    match matches.opt_str("c") {
        Some(p) => PathBuf::from(&p),
        None => {''')),
mut("no-dotconfig","C43",(A,'''                        p.push(s);
                        p.push(".config")
''','''                        p.push(s);
                        p.push("config")
''')),
mut("leaf-stored","C43",(A,SRV,'''            let conf_path = PathBuf::from(conf_path.file_name().unwrap_or_default());
'''+SRV)),
mut("chdir-server","C43",(M,'''    let sock_path = sock_path(cache_path);

    #[cfg(target_os = "openbsd")]
    unveil(
        conf_path''','''    let sock_path = sock_path(cache_path);
    std::env::set_current_dir(cache_path)?;

    #[cfg(target_os = "openbsd")]
    unveil(
        conf_path''')),
mut("chdir-notifier","C43",(V,'''            loop {
                let (act_name, event) =
''','''            std::env::set_current_dir("/").ok();
            loop {
                let (act_name, event) =
''')),
mut("reload-default","C43",(M,RL,'''            let path = std::env::var_os("XDG_CONFIG_HOME")
                .map(|s| PathBuf::from(s).join("pizauth.conf"))
                .filter(|p| p.is_file())
                .unwrap_or_else(|| pstate.conf_path.clone());
            match Config::from_path(&path) {''')),
mut("reload-cache","C43",(M,RL,'''            match Config::from_path(&pstate.conf_path.with_extension("new")) {''')),
mut("sock-elsewhere","C43",(U,'''    let sock_path = sock_path(cache_path);
    let mut stream = UnixStream::connect(sock_path)
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream
        .write_all(format!("revoke''','''    let sock_path = sock_path(cache_path.parent().unwrap_or(cache_path));
    let mut stream = UnixStream::connect(sock_path)
        .map_err(|_| "pizauth authenticator not running or not responding")?;
    stream
        .write_all(format!("revoke''')),
ref("conf-early-return",(A,CP,'''    if let Some(p) = matches.opt_str("c") {
        return PathBuf::from(p);
    }
    let dir = if let Some(s) = env::var_os("XDG_CONFIG_HOME") {
        PathBuf::from(s)
    } else if let Some(s) = env::var_os("HOME") {
        PathBuf::from(s).join(".config")
    } else {
        fatal("Neither $XDG_CONFIG_HOME or $HOME set")
    };
    let p = dir.join(PIZAUTH_CONF_LEAF);
'''+CHK)),
ref("conf-or-else",(A,CP,'''    if let Some(p) = matches.opt_str("c") {
        return p.into();
    }
    let p = env::var_os("XDG_CONFIG_HOME")
        .map(PathBuf::from)
        .or_else(|| env::var_os("HOME").map(|s| Path::new(&s).join(".config")))
        .unwrap_or_else(|| fatal("Neither $XDG_CONFIG_HOME or $HOME set"))
        .join(PIZAUTH_CONF_LEAF);
'''+CHK),(A,"path::PathBuf,","path::{Path, PathBuf},")),
ref("conf-map-or-else",(A,CP,'''    matches.opt_str("c").map_or_else(default_conf_path, PathBuf::from)
}

fn default_conf_path() -> PathBuf {
    let mut p = match (env::var_os("XDG_CONFIG_HOME"), env::var_os("HOME")) {
        (Some(s), _) => PathBuf::from(s),
        (None, Some(s)) => {
            let mut p = PathBuf::from(s);
            p.push(".config");
            p
        }
        (None, None) => fatal("Neither $XDG_CONFIG_HOME or $HOME set"),
    };
    p.push(PIZAUTH_CONF_LEAF);
'''+CHK)),
ref("conf-collect",(A,CP,'''    if let Some(p) = matches.opt_str("c") {
        return PathBuf::from(p);
    }
    let p: PathBuf = match env::var_os("XDG_CONFIG_HOME") {
        Some(s) => [PathBuf::from(s), PathBuf::from(PIZAUTH_CONF_LEAF)].iter().collect(),
        None => match env::var_os("HOME") {
            Some(s) => Path::new(&s).join(".config/pizauth.conf"),
            None => fatal("Neither $XDG_CONFIG_HOME or $HOME set"),
        },
    };
'''+CHK),(A,"path::PathBuf,","path::{Path, PathBuf},")),
ref("conf-absolute",(A,'''            let conf_path = conf_path(&matches);
            let conf = ''','''            let conf_path = conf_path(&matches);
            let conf_path = std::path::absolute(&conf_path).unwrap_or_else(|e| fatal(&format!("Bad configuration path: {e}")));
            let conf = '''),(A,"daemon(true, false)","daemon(false, false)")),
ref("conf-absolute-stored",(A,SRV,'''            let conf_path = conf_path.canonicalize().unwrap_or(conf_path);
'''+SRV)),
ref("conf-renamed",(S,"    pub conf_path: PathBuf,","    pub path: PathBuf,"),(S,"            conf_path,\n","            path: conf_path,\n"),(M,RL,'''            let path = pstate.path.as_path();
            match Config::from_path(path) {''')),
ref("conf-boxed",(S,"    pub conf_path: PathBuf,","    pub conf_path: Box<std::path::Path>,"),(S,"            conf_path,\n","            conf_path: conf_path.into_boxed_path(),\n"),(S,"use std::{","use std::{")),
ref("sock-join",(M,'''    let mut p = cache_path.to_owned();
    p.push(PIZAUTH_CACHE_SOCK_LEAF);
    p
''','''    cache_path.join(PIZAUTH_CACHE_SOCK_LEAF)
''')),
ref("cache-base-fn",(A,'''    let mut p = PathBuf::new();
    match env::var_os("XDG_RUNTIME_DIR") {
        Some(s) => p.push(s),
        None => {
            match env::var_os("TMPDIR") {
                Some(s) => p.push(s),
                None => p.push("/tmp"),
            }
            p.push(format!("runtime-{}", username()));
        }
    }
''','''    let mut p = env::var_os("XDG_RUNTIME_DIR").map_or_else(
        || {
            let tmp = env::var_os("TMPDIR").unwrap_or_else(|| "/tmp".into());
            PathBuf::from(tmp).join(format!("runtime-{}", username()))
        },
        PathBuf::from,
    );
''')),
ref("daemon-let",(A,"                daemon(true, false).unwrap_or_else(","                let (nochdir, noclose) = (true, false);\n                daemon(nochdir, noclose).unwrap_or_else(")),
ref("read-conf-fn",(A,"            let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));","            let conf = read_conf(&conf_path);"),(A,"fn conf_path(matches: &getopts::Matches) -> PathBuf {","fn read_conf(p: &std::path::Path) -> Config {\n    match Config::from_path(p) {\n        Ok(c) => c,\n        Err(m) => fatal(&m),\n    }\n}\n\nfn conf_path(matches: &getopts::Matches) -> PathBuf {")),
]
