M, H, R, S, N = "src/server/mod.rs", "src/server/http_server.rs", "src/server/refresher.rs", "src/server/state.rs", "src/server/notifier.rs"
ADD = """    refreshed_at
        .checked_add(Duration::from_secs(expires_in))
        .or_else(|| {
            refreshed_at.checked_add(ct_lk.account(act_id).refresh_at_least(ct_lk.config()))
        })
        .ok_or_else(|| "Can't represent expiry".into())"""
MALFORMED = """    if !matches!(req_line_sp.as_slice(), &["GET", _, _]) {
        return Err("Malformed HTTP request".into());
    }
    let path = req_line_sp[1];
"""
COLON = """        if let Some(i) = f.as_str().find(':') {
            if f.as_str()[..i]"""
LINE = """    let (cmd, rest) = {
        let len = buf
            .iter()
            .map(|b| *b as char)
            .take_while(|c| *c != ':')
            .count();
        if len == buf.len() {"""
SHORT = """        if d.len() < NONCE_LEN {
            return Err("Input too short")?;
        }
"""
HOSTV = """                let j: usize = f[i + ':'.len_utf8()..]
                    .chars()
                    .take_while(|c| *c == ' ' || *c == '\\t')
                    .map(|c| c.len_utf8())
                    .sum();
                host = Some(f[i + ':'.len_utf8() + j..].to_string());
"""
CONT = """                match req.last_mut() {
                    Some(x) => {
                        // Not calling `trim_start` means that the two joined lines have at least
                        // one space|tab between them.
                        x.push_str(line.as_str().trim_end());
                    }
                    None => return Err("Malformed HTTP header".into()),
                }
"""
YEAR = """    if dt.year() > 9999 {
        return None;
    }
    Some(dt.to_rfc2822())"""
FMT = """    if i < now {
        if let Some(d) = now.checked_duration_since(i) {
            if let Some(s) = SystemTime::now().checked_sub(d).and_then(systemtime_fmt) {
                return s;
            }
        }
    } else if let Some(d) = i.checked_duration_since(now) {
        if let Some(s) = SystemTime::now().checked_add(d).and_then(systemtime_fmt) {
            return s;
        }
    }
"""
I = ["C28"]
EDITS = [
 dict(name="p-as-u64", kind="mut", ids=I, edits=[(H, 'parsed["expires_in"].as_u64(),', 'Some(parsed["expires_in"].as_u64().unwrap()),')]),
 dict(name="p-as-str", kind="mut", ids=I, edits=[(R, 'if let Some(e) = v["error"].as_str() {', 'if !v["error"].is_null() {\n                    let e = v["error"].as_str().expect("error is a string");')]),
 dict(name="p-json", kind="mut", ids=I, edits=[(R, 'if let Some(e) = v["error"].as_str() {', 'if let Some(e) = v.as_object().unwrap().get("error").and_then(|x| x.as_str()) {')]),
 dict(name="p-add", kind="mut", ids=I, edits=[(M, ADD, "    let _ = (ct_lk, act_id);\n    Ok(refreshed_at + Duration::from_secs(expires_in))")]),
 dict(name="p-add-unwrap", kind="mut", ids=I, edits=[(M, ADD, "    let _ = (ct_lk, act_id);\n    Ok(refreshed_at.checked_add(Duration::from_secs(expires_in)).unwrap())")]),
 dict(name="p-add-f64", kind="mut", ids=I, edits=[(M, "Duration::from_secs(expires_in)", "Duration::from_secs_f64(expires_in as f64)")]),
 dict(name="p-grace", kind="mut", ids=I, edits=[(M, "Duration::from_secs(expires_in)", "Duration::from_secs(expires_in - 10)")]),
 dict(name="p-sub", kind="mut", ids=I, edits=[(R, """                let mut expiry = access_token_expiry
                    .checked_sub(act.refresh_before_expiry(ct_lk.config()))
                    .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));""", "                let mut expiry = *access_token_expiry - act.refresh_before_expiry(ct_lk.config());")]),
 dict(name="p-notify-add", kind="mut", ids=I, edits=[(N, "if let Some(t) = t.checked_add(notify_interval) {", "{\n                            let t = *t + notify_interval;")]),
 dict(name="p-no-malformed", kind="mut", ids=I, edits=[(H, MALFORMED, """    if req_line_sp[0] != "GET" {
        return Err("Malformed HTTP request".into());
    }
    let path = req_line_sp[1];
""")]),
 dict(name="p-two-parts", kind="mut", ids=I, edits=[(H, MALFORMED, """    if req_line_sp.len() < 2 || req_line_sp[0] != "GET" {
        return Err("Malformed HTTP request".into());
    }
    let path = req_line_sp[1];
    if !req_line_sp[2].starts_with("HTTP/") {
        return Err("Malformed HTTP request".into());
    }
""")]),
 dict(name="p-prefix-slice", kind="mut", ids=I, edits=[(H, """            if f.as_str()[..i].eq_ignore_ascii_case("host") {""", """            if f.as_str()[..4].eq_ignore_ascii_case("host") {""")]),
 dict(name="p-after-colon", kind="mut", ids=I, edits=[(H, HOSTV, """                host = Some(f[i + 2..].trim_start().to_string());
""")]),
 dict(name="p-chars", kind="mut", ids=I, edits=[(H, HOSTV, """                let j = f.chars().skip(i + 1).take_while(|c| c.is_whitespace()).count();
                host = Some(f[i + 1 + j..].to_string());
""")]),
 dict(name="p-cont", kind="mut", ids=I, edits=[(H, CONT, """                req.last_mut().unwrap().push_str(line.as_str().trim_end());
""")]),
 dict(name="p-cont-index", kind="mut", ids=I, edits=[(H, CONT, """                let n = req.len();
                req[n - 1].push_str(line.as_str().trim_end());
""")]),
 dict(name="p-utf8", kind="mut", ids=I, edits=[(M, "(std::str::from_utf8(&buf[..len])?,", "(std::str::from_utf8(&buf[..len]).unwrap(),")]),
 dict(name="p-no-colon", kind="mut", ids=I, edits=[(M, "        if len == buf.len() {", "        if buf.is_empty() {")]),
 dict(name="p-no-short", kind="mut", ids=I, edits=[(S, SHORT, "")]),
 dict(name="p-less-short", kind="mut", ids=I, edits=[(S, "if d.len() < NONCE_LEN {", "if d.len() + 1 < NONCE_LEN {")]),
 dict(name="p-decrypt", kind="mut", ids=I, edits=[(S, """            .map_err(|_| "Restoring dump failed")?;""", """            .expect("Restoring dump failed");""")]),
 dict(name="p-deserialize", kind="mut", ids=I, edits=[(S, "bincode::deserialize::<Dump>(&dump)?;", "bincode::deserialize::<Dump>(&dump).unwrap();")]),
 dict(name="p-version", kind="mut", ids=I, edits=[(S, """        if d.version != DUMP_VERSION {
            return Err("Unknown dump version".into());
        }""", """        assert_eq!(d.version, DUMP_VERSION);""")]),
 dict(name="p-systime", kind="mut", ids=I, edits=[(S, "            if let Ok(d) = t.duration_since(SystemTime::now()) {\n                // SystemTime is in the future\n                i = Instant::now().checked_add(d);", "            if *t > SystemTime::now() {\n                // SystemTime is in the future\n                i = Instant::now().checked_add(t.duration_since(SystemTime::now()).unwrap());")]),
 dict(name="p-restore-sub", kind="mut", ids=I, edits=[(S, "i = Instant::now().checked_sub(d);", "i = Some(Instant::now() - boot_time::Duration::from_secs(d.as_secs()));")]),
 dict(name="p-year", kind="mut", ids=I, edits=[(M, YEAR, "    Some(dt.to_rfc2822())")]),
 dict(name="p-year-big", kind="mut", ids=I, edits=[(M, "dt.year() > 9999", "dt.year() > 99999")]),
 dict(name="p-into", kind="mut", ids=I, edits=[(M, FMT, FMT.replace(".and_then(systemtime_fmt)", "").replace("return s;", "let dt: DateTime<Local> = s.into();\n                return dt.to_rfc3339();"))]),
 dict(name="p-from-ts", kind="mut", ids=I, edits=[(M, "DateTime::from_timestamp(i64::try_from(secs).ok()?, 0)?", "DateTime::from_timestamp(i64::try_from(secs).ok()?, 0).unwrap()")]),
 dict(name="p-try-from", kind="mut", ids=I, edits=[(M, "i64::try_from(secs).ok()?", "i64::try_from(secs).unwrap()")]),
 dict(name="p-epoch", kind="mut", ids=I, edits=[(M, "st.duration_since(SystemTime::UNIX_EPOCH).ok()?", "st.duration_since(SystemTime::UNIX_EPOCH).unwrap()")]),
 dict(name="p-code", kind="mut", ids=I, edits=[(H, "fn parse_get<T: Read + Write>(", "fn only(v: &[String]) -> &str {\n    assert!(v.len() == 1, \"one value expected\");\n    &v[0]\n}\n\nfn parse_get<T: Read + Write>("), (H, "    match host {\n        Some(h) =>", "    match host.map(|x| only(&x.split(',').map(|y| y.to_owned()).collect::<Vec<_>>()).to_owned()) {\n        Some(h) =>")]),
 dict(name="p-url", kind="mut", ids=I, edits=[(H, """    match host {
        Some(h) => Url::parse(&format!(
            "{}://{h:}{path:}",
            if is_https { "https" } else { "http" }
        ))
        .map_err(|e| format!("Invalid request URI: {e:}").into()),
        None => Err("No host field specified in HTTP request".into()),
    }""", """    match host {
        Some(h) => Ok(Url::parse(&format!(
            "{}://{h:}{path:}",
            if is_https { "https" } else { "http" }
        )).expect("Invalid request URI")),
        None => Err("No host field specified in HTTP request".into()),
    }""")]),
 dict(name="p-host", kind="mut", ids=I, edits=[(H, """    match host {
        Some(h) =>""", """    match Some(host.unwrap()) {
        Some(h) =>""")]),
 dict(name="p-verb", kind="mut", ids=I, edits=[(M, 'Err("Invalid command".into())', 'unreachable!()')]),
 dict(name="p-split", kind="mut", ids=I, edits=[(M, """        "refresh" => {
            let rest = std::str::from_utf8(rest)?;
            if let [with_url, act_name] = &rest.splitn(2, ' ').collect::<Vec<_>>()[..] {""", """        "refresh" => {
            let rest = std::str::from_utf8(rest)?;
            if !rest.is_empty() {
                let rest = rest.splitn(2, ' ').collect::<Vec<_>>();
                let (with_url, act_name) = (&rest[0], &rest[1]);""")]),
 dict(name="p-ref-add", kind="ref", edits=[(M, ADD, """    let end = refreshed_at.checked_add(Duration::from_secs(expires_in));
    match end {
        Some(x) => Ok(x),
        None => match refreshed_at.checked_add(ct_lk.account(act_id).refresh_at_least(ct_lk.config())) {
            Some(x) => Ok(x),
            None => Err("Can't represent expiry".into()),
        },
    }""")]),
 dict(name="p-ref-malformed", kind="ref", edits=[(H, MALFORMED, """    let path = match req_line_sp[..] {
        ["GET", path, _] => path,
        _ => return Err("Malformed HTTP request".into()),
    };
""")]),
 dict(name="p-ref-len", kind="ref", edits=[(H, MALFORMED, """    if req_line_sp.len() != 3 || req_line_sp[0] != "GET" {
        return Err("Malformed HTTP request".into());
    }
    let path = req_line_sp[1];
""")]),
 dict(name="p-ref-colon", kind="ref", edits=[(H, COLON, """        if let Some(i) = f.find(':') {
            let name = &f[..i];
            if name""")]),
 dict(name="p-ref-split-once", kind="ref", edits=[(H, HOSTV, """                if let Some((_, v)) = f.split_once(':') {
                    host = Some(v.trim_start_matches([' ', '\\t']).to_string());
                }
""")]),
 dict(name="p-ref-trim", kind="ref", edits=[(H, HOSTV, """                host = Some(f[i + 1..].trim_start_matches([' ', '\\t']).to_string());
""")]),
 dict(name="p-ref-position", kind="ref", edits=[(M, LINE, """    let (cmd, rest) = {
        let len = buf.iter().position(|b| *b == b':').unwrap_or(buf.len());
        if len >= buf.len() {""")]),
 dict(name="p-ref-lt", kind="ref", edits=[(M, "        if len == buf.len() {", "        if len >= buf.len() {")]),
 dict(name="p-ref-split-at", kind="ref", edits=[(S, """        let nonce = &d[..NONCE_LEN];
        let encrypted = &d[NONCE_LEN..];
""", """        let (nonce, encrypted) = d.split_at(NONCE_LEN);
""")]),
 dict(name="p-ref-short", kind="ref", edits=[(S, SHORT + "        let key", """        if !(d.len() >= NONCE_LEN) {
            return Err("Input too short")?;
        }
        let key""")]),
 dict(name="p-ref-year", kind="ref", edits=[(M, YEAR, """    if dt.year() < 10000 {
        Some(dt.to_rfc2822())
    } else {
        None
    }""")]),
 dict(name="p-ref-lock", kind="ref", edits=[(S, "CTGuard::new(self.locked_state.lock().unwrap())", """CTGuard::new(self.locked_state.lock().expect("poisoned"))""")]),
 dict(name="p-ref-first", kind="ref", edits=[(H, CONT, """                if req.is_empty() {
                    return Err("Malformed HTTP header".into());
                }
                let n = req.len() - 1;
                req[n].push_str(line.as_str().trim_end());
""")]),
 dict(name="p-ref-last", kind="ref", edits=[(H, CONT, """                if req.is_empty() {
                    return Err("Malformed HTTP header".into());
                }
                if let Some(x) = req.last_mut() {
                    x.push_str(line.trim_end());
                }
""")]),
]
