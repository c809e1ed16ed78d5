C = "src/config.rs"
Y = "src/config.y"
L = "src/config.l"
S = "src/server/mod.rs"
RAL = """                            refresh_at_least = Some(time_str_to_duration(check_not_assigned_time(
                                &lexer,
                                "refresh_at_least",
                                span,
                                refresh_at_least,
                            )?)?)"""
EDITS = [
 dict(name="cf-swap-refresh", kind="mut", ids=["C23"], edits=[(C, "            refresh_at_least,\n            refresh_before_expiry,\n            refresh_retry,\n            token_event_cmd,", "            refresh_at_least: refresh_before_expiry,\n            refresh_before_expiry: refresh_at_least,\n            refresh_retry,\n            token_event_cmd,")]),
 dict(name="cf-swap-cmds", kind="mut", ids=["C23"], edits=[(C, "            error_notify_cmd,\n            http_listen:", "            error_notify_cmd: error_notify_cmd.or(token_event_cmd.clone()),\n            http_listen:")]),
 dict(name="cf-dup-account", kind="mut", ids=["C23"], edits=[(C, "if accounts.contains_key(&act_name) {", "if accounts.len() > 1 && accounts.contains_key(&act_name) {")]),
 dict(name="cf-dup-scopes", kind="mut", ids=["C23"], edits=[(C, "if scopes.is_some() {", "if scopes.as_ref().is_some_and(|x: &Vec<String>| !x.is_empty()) {")]),
 dict(name="cf-dup-listen-none", kind="mut", ids=["C23"], edits=[(C, """check_not_assigned(&lexer, "http_listen", span, http_listen)?;""", """check_not_assigned(&lexer, "http_listen", span, https_listen.clone())?;""")]),
 dict(name="cf-dup-fn", kind="mut", ids=["C23"], edits=[(C, """    match v {
        None => Ok(lexer.span_str(span)),
        Some(_) => Err""", """    match v {
        None => Ok(lexer.span_str(span)),
        Some(_) if name.starts_with("refresh_at") => Ok(lexer.span_str(span)),
        Some(_) => Err""")]),
 dict(name="cf-default-redirect", kind="mut", ids=["C23"], edits=[(C, 'redirect_uri.unwrap_or_else(|| "http://localhost/".to_owned())', 'redirect_uri.unwrap_or_else(|| "http://localhost".to_owned())')]),
 dict(name="cf-default-interval", kind="mut", ids=["C23"], edits=[(C, "const AUTH_NOTIFY_INTERVAL_DEFAULT: u64 = 15 * 60;", "const AUTH_NOTIFY_INTERVAL_DEFAULT: u64 = 15 * 6;")]),
 dict(name="cf-secret-default", kind="mut", ids=["C23"], edits=[(C, "            client_secret,\n            redirect_uri: redirect_uri", "            client_secret: client_secret.or(Some(String::new())),\n            redirect_uri: redirect_uri")]),
 dict(name="cf-token-uri-opt", kind="mut", ids=["C23"], edits=[(C, """let token_uri = check_assigned(lexer, "token_uri", overall_span, token_uri)?;""", """let token_uri = token_uri.unwrap_or_else(|| auth_uri.clone());""")]),
 dict(name="cf-fields-keys", kind="mut", ids=["C23"], edits=[(C, "unescape_str(lexer.span_str(*key_sp)),\n                                    unescape_str(lexer.span_str(*val_sp)),", "unescape_str(lexer.span_str(*key_sp)).to_lowercase(),\n                                    unescape_str(lexer.span_str(*val_sp)),")]),
 dict(name="cf-scopes-skip", kind="mut", ids=["C23"], edits=[(C, ".map(|sp| unescape_str(lexer.span_str(*sp)))\n", ".map(|sp| unescape_str(lexer.span_str(*sp)))\n                            .filter(|x| !x.is_empty())\n")]),
 dict(name="cf-scopes-split", kind="mut", ids=["C23"], edits=[(C, ".map(|sp| unescape_str(lexer.span_str(*sp)))\n", ".map(|sp| unescape_str(lexer.span_str(*sp)).trim().to_owned())\n")]),
 dict(name="cf-retry-swallowed", kind="mut", ids=["C23"], edits=[(C, "refresh_retry = Some(time_str_to_duration(check_not_assigned_time(\n                                &lexer,", "refresh_before_expiry = Some(time_str_to_duration(check_not_assigned_time(\n                                &lexer,")]),
 dict(name="cf-zero-is-none", kind="mut", ids=["C23"], edits=[(C, "            refresh_before_expiry,\n            refresh_retry,\n            scopes", "            refresh_before_expiry: refresh_before_expiry.filter(|x: &Duration| !x.is_zero()),\n            refresh_retry,\n            scopes")]),
 dict(name="cf-minutes", kind="mut", ids=["C23"], edits=[(C, "'h' => num.checked_mul(3600)", "'h' => num.checked_mul(360)")]),
 dict(name="cf-days-sat", kind="mut", ids=["C24"], edits=[(C, "'d' => num.checked_mul(86400).ok_or(\"Number too big\")?", "'d' => num.saturating_mul(86400)")]),
 dict(name="cf-hours-wrap", kind="mut", ids=["C24"], edits=[(C, "'h' => num.checked_mul(3600).ok_or(\"Number too big\")?", "'h' => num.wrapping_mul(3600)")]),
 dict(name="cf-y-swap", kind="mut", ids=["C23"], edits=[(Y, 'spans.push((map_err($3)?, map_err($5)?));', 'spans.push((map_err($5)?, map_err($3)?));')]),
 dict(name="cf-y-keyword", kind="mut", ids=["C23"], edits=[(Y, '"REFRESH_RETRY" "=" "TIME" ";" { Ok(TopLevel::RefreshRetry', '"REFRESH_RETRY" "=" "TIME" ";" { Ok(TopLevel::RefreshAtLeast')]),
 dict(name="cf-y-order", kind="mut", ids=["C23"], edits=[(Y, "flt.push(rhs?);", "flt.insert(0, rhs?);")]),
 dict(name="cf-y-drop", kind="mut", ids=["C23"], edits=[(Y, "      spans.push(map_err($3)?);\n      Ok(spans)", "      if spans.is_empty() { spans.push(map_err($3)?); }\n      Ok(spans)")]),
 dict(name="cf-l-swap", kind="mut", ids=["C23"], edits=[(L, 'refresh_retry "REFRESH_RETRY"', 'refresh_retry "REFRESH_AT_LEAST_"'), (L, 'refresh_at_least "REFRESH_AT_LEAST"', 'refresh_at_least "REFRESH_RETRY"'), (L, '"REFRESH_AT_LEAST_"', '"REFRESH_AT_LEAST"')]),
 dict(name="cf-uri-plain", kind="mut", ids=["C24"], edits=[(C, 'token_uri = Some(check_not_assigned_uri(lexer, "token_uri", span, token_uri)?)', 'token_uri = Some(check_not_assigned_str(lexer, "token_uri", span, token_uri)?)')]),
 dict(name="cf-uri-ftp", kind="mut", ids=["C24"], edits=[(C, 'if x.scheme() == "http" || x.scheme() == "https" {', 'if x.scheme() == "http" || x.scheme() == "https" || x.has_host() {')]),
 dict(name="cf-uri-starts", kind="mut", ids=["C24"], edits=[(C, 'if x.scheme() == "http" || x.scheme() == "https" {', 'if x.scheme().starts_with("http") {')]),
 dict(name="cf-uri-rel", kind="mut", ids=["C24"], edits=[(C, """                Err(e) => Err(error_at_span(lexer, span, &format!("Invalid URI: {e:}"))),""", """                Err(e) if s.starts_with("http") => { let _ = e; Ok(s) }
                Err(e) => Err(error_at_span(lexer, span, &format!("Invalid URI: {e:}"))),""")]),
 dict(name="cf-none-none", kind="mut", ids=["C24"], edits=[(C, "if let (&Some(None), &Some(None)) = (&http_listen, &https_listen) {", "if accounts.len() == 1 && matches!((&http_listen, &https_listen), (&Some(None), &Some(None))) {")]),
 dict(name="cf-redir-lost", kind="mut", ids=["C24"], edits=[(C, """            } else {
                match http_listen {
                    Some(Some(_)) | None => (),
                    Some(None) => {""", """            } else {
                match http_listen {
                    Some(Some(_)) | None => (),
                    Some(None) if act_name.is_empty() => (),
                    Some(None) => {""")]),
 dict(name="cf-redir-swap", kind="mut", ids=["C24"], edits=[(C, "if act.redirect_uri_is_https() {\n                match https_listen", "if !act.redirect_uri_is_https() {\n                match https_listen")]),
 dict(name="cf-redir-one", kind="mut", ids=["C24"], edits=[(C, "for (act_name, act) in &accounts {", "for (act_name, act) in accounts.iter().take(1) {")]),
 dict(name="cf-no-accounts", kind="mut", ids=["C24"], edits=[(C, "if accounts.is_empty() {", "if accounts.is_empty() && auth_notify_cmd.is_none() {")]),
 dict(name="cf-hint", kind="mut", ids=["C24"], edits=[(C, '.any(|(k, _)| k == "login_hint")', '.any(|(k, v)| k == "login_hint" && v.is_empty())')]),
 dict(name="cf-hint-first", kind="mut", ids=["C24"], edits=[(C, 'auth_uri_fields.iter().any(|(k, _)|', 'auth_uri_fields.iter().take(1).any(|(k, _)|')]),
 dict(name="cf-errs", kind="mut", ids=["C24"], edits=[(C, "if !errs.is_empty() {", "if errs.len() > 1 {")]),
 dict(name="cf-ref-secs", kind="ref", edits=[(C, """        let secs = match t.chars().last().unwrap() {
            'd' => num.checked_mul(86400).ok_or("Number too big")?,
            'h' => num.checked_mul(3600).ok_or("Number too big")?,
            'm' => num.checked_mul(60).ok_or("Number too big")?,
            's' => num,
            _ => unreachable!(),
        };
        Ok(Duration::from_secs(secs))""", """        let unit: u64 = match t.chars().last().unwrap() {
            'd' => 24 * 60 * 60,
            'h' => 60 * 60,
            'm' => 60,
            's' => 1,
            _ => unreachable!(),
        };
        let secs = match num.checked_mul(unit) {
            Some(s) => s,
            None => return Err("Number too big".into()),
        };
        Ok(Duration::from_secs(secs))""")]),
 dict(name="cf-ref-assigned", kind="ref", edits=[(C, """    match v {
        None => Ok(unescape_str(lexer.span_str(span))),
        Some(_) => Err(error_at_span(
            lexer,
            span,
            &format!("Mustn't specify '{name:}' more than once"),
        )),
    }
}

fn check_not_assigned_time""", """    check_not_assigned(lexer, name, span, v)?;
    Ok(unescape_str(lexer.span_str(span)))
}

fn check_not_assigned_time""")]),
 dict(name="cf-ref-uri", kind="ref", edits=[(C, """        None => {
            let s = unescape_str(lexer.span_str(span));
            match Url::parse(&s) {
                Ok(x) => {
                    if x.scheme() == "http" || x.scheme() == "https" {
                        Ok(s)
                    } else {
                        Err(error_at_span(lexer, span, "not a valid HTTP or HTTPS URI"))
                    }
                }
                Err(e) => Err(error_at_span(lexer, span, &format!("Invalid URI: {e:}"))),
            }
        }""", """        None => {
            let s = unescape_str(lexer.span_str(span));
            let uri = Url::parse(&s)
                .map_err(|e| error_at_span(lexer, span, &format!("Invalid URI: {e:}")))?;
            if !matches!(uri.scheme(), "http" | "https") {
                return Err(error_at_span(lexer, span, "not a valid HTTP or HTTPS URI"));
            }
            Ok(s)
        }""")]),
 dict(name="cf-ref-scopes-loop", kind="ref", edits=[(C, """                    scopes = Some(
                        spans
                            .iter()
                            .map(|sp| unescape_str(lexer.span_str(*sp)))
                            .collect::<Vec<String>>(),
                    );""", """                    let mut v = Vec::with_capacity(spans.len());
                    for sp in spans {
                        v.push(unescape_str(lexer.span_str(sp)));
                    }
                    scopes = Some(v);""")]),
 dict(name="cf-ref-entry", kind="ref", edits=[(C, """                            if accounts.contains_key(&act_name) {
                                return Err(error_at_span(
                                    &lexer,
                                    name,
                                    &format!(
                                        "Mustn't specify account '{act_name:}' more than once"
                                    ),
                                ));
                            }
                            accounts.insert(
                                act_name.clone(),
                                Arc::new(Account::from_fields(
                                    act_name,
                                    &lexer,
                                    overall_span,
                                    fields,
                                )?),
                            );""", """                            let dup = accounts.contains_key(&act_name);
                            if dup {
                                let msg = format!("Mustn't specify account '{act_name:}' more than once");
                                return Err(error_at_span(&lexer, name, &msg));
                            }
                            let act = Account::from_fields(act_name.clone(), &lexer, overall_span, fields)?;
                            accounts.insert(act_name, Arc::new(act));""")]),
 dict(name="cf-ref-redir", kind="ref", edits=[(C, """            if act.redirect_uri_is_https() {
                match https_listen {
                    Some(Some(_)) | None => (),
                    Some(None) => {
                        return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                    }
                }
            } else {
                match http_listen {
                    Some(Some(_)) | None => (),
                    Some(None) => {
                        return Err(format!("Account {act_name} has an 'http' redirect but the HTTP server is set to 'none'"));
                    }
                }
            }""", """            let https = act.redirect_uri_is_https();
            if https && matches!(https_listen, Some(None)) {
                return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
            }
            if !https && matches!(http_listen, Some(None)) {
                return Err(format!("Account {act_name} has an 'http' redirect but the HTTP server is set to 'none'"));
            }""")]),
 dict(name="cf-ref-none", kind="ref", edits=[(C, "if let (&Some(None), &Some(None)) = (&http_listen, &https_listen) {", "let no_http = matches!(http_listen, Some(None));\n        let no_https = matches!(https_listen, Some(None));\n        if no_http && no_https {")]),
 dict(name="cf-ref-hint", kind="ref", edits=[(C, """        if let (Some(_), Some(auth_uri_fields)) = (&login_hint, &auth_uri_fields) {
            if auth_uri_fields.iter().any(|(k, _)| k == "login_hint") {
                return Err(""", """        if login_hint.is_some() {
            let clash = match &auth_uri_fields {
                Some(fs) => fs.iter().any(|f| f.0 == "login_hint"),
                None => false,
            };
            if clash {
                return Err(""")]),
 dict(name="cf-ref-defaults", kind="ref", edits=[(C, """            auth_notify_interval: auth_notify_interval
                .unwrap_or_else(|| Duration::from_secs(AUTH_NOTIFY_INTERVAL_DEFAULT)),""", """            auth_notify_interval: auth_notify_interval
                .unwrap_or(Duration::from_secs(AUTH_NOTIFY_INTERVAL_DEFAULT)),"""), (C, "redirect_uri: redirect_uri.unwrap_or_else(|| \"http://localhost/\".to_owned()),", "redirect_uri: match redirect_uri {\n                Some(x) => x,\n                None => String::from(\"http://localhost/\"),\n            },")]),
 dict(name="cf-ref-mandatory", kind="ref", edits=[(C, """let token_uri = check_assigned(lexer, "token_uri", overall_span, token_uri)?;""", """let token_uri = match token_uri {
            Some(x) => x,
            None => return Err(error_at_span(lexer, overall_span, "token_uri not specified")),
        };""")]),
 dict(name="cf-ref-toplevel", kind="ref", edits=[(C, RAL, """                            let s = check_not_assigned_time(&lexer, "refresh_at_least", span, refresh_at_least)?;
                            let d = time_str_to_duration(s)?;
                            refresh_at_least = Some(d);""")]),
 dict(name="cf-ref-unescape", kind="ref", edits=[(C, """    let mut s = String::new();
    // We iterate over all characters except the opening and closing quote characters.
    let mut i = '"'.len_utf8();
    while i < us.len() - '"'.len_utf8() {
        let c = us[i..].chars().next().unwrap();
        if c == '\\\\' {
            // The regex in config.l should have guaranteed that there are no unescaped quote (")
            // characters, but we check here just to be sure.
            debug_assert!(i < us.len() - '"'.len_utf8());
            i += 1;
            let c2 = us[i..].chars().next().unwrap();
            debug_assert!(c2 == '"' || c2 == '\\\\');
            s.push(c2);
            i += c2.len_utf8();
        } else {
            s.push(c);
            i += c.len_utf8();
        }
    }
    s""", """    let mut s = String::with_capacity(us.len());
    let mut cs = us[1..us.len() - 1].chars();
    while let Some(c) = cs.next() {
        if c == '\\\\' {
            let c2 = cs.next().unwrap();
            debug_assert!(c2 == '"' || c2 == '\\\\');
            s.push(c2);
        } else {
            s.push(c);
        }
    }
    s""")]),
 dict(name="cf-scopes-loop-dedup", kind="mut", ids=["C23"], edits=[(C, """                    scopes = Some(
                        spans
                            .iter()
                            .map(|sp| unescape_str(lexer.span_str(*sp)))
                            .collect::<Vec<String>>(),
                    );""", """                    let mut v: Vec<String> = Vec::with_capacity(spans.len());
                    for sp in spans {
                        let s = unescape_str(lexer.span_str(sp));
                        if !v.contains(&s) {
                            v.push(s);
                        }
                    }
                    scopes = Some(v);""")]),
 dict(name="cf-scopes-loop-skip", kind="mut", ids=["C23"], edits=[(C, """                    scopes = Some(
                        spans
                            .iter()
                            .map(|sp| unescape_str(lexer.span_str(*sp)))
                            .collect::<Vec<String>>(),
                    );""", """                    let mut v: Vec<String> = Vec::with_capacity(spans.len());
                    for sp in spans.into_iter().skip(1) {
                        v.push(unescape_str(lexer.span_str(sp)));
                    }
                    scopes = Some(v);""")]),
 dict(name="cf-scopes-loop-break", kind="mut", ids=["C23"], edits=[(C, """                    scopes = Some(
                        spans
                            .iter()
                            .map(|sp| unescape_str(lexer.span_str(*sp)))
                            .collect::<Vec<String>>(),
                    );""", """                    let mut v: Vec<String> = Vec::with_capacity(spans.len());
                    for sp in spans {
                        if v.len() == 8 {
                            break;
                        }
                        v.push(unescape_str(lexer.span_str(sp)));
                    }
                    scopes = Some(v);""")]),
 dict(name="cf-ref-fields-loop", kind="ref", edits=[(C, """                    auth_uri_fields = Some(
                        spans
                            .iter()
                            .map(|(key_sp, val_sp)| {
                                (
                                    unescape_str(lexer.span_str(*key_sp)),
                                    unescape_str(lexer.span_str(*val_sp)),
                                )
                            })
                            .collect::<Vec<(String, String)>>(),
                    );""", """                    let mut v = Vec::new();
                    for (key_sp, val_sp) in &spans {
                        let k = unescape_str(lexer.span_str(*key_sp));
                        let x = unescape_str(lexer.span_str(*val_sp));
                        v.push((k, x));
                    }
                    auth_uri_fields = Some(v);""")]),
 dict(name="cf-ref-hint-loop", kind="ref", edits=[(C, """            if auth_uri_fields.iter().any(|(k, _)| k == "login_hint") {
                return Err(error_at_span(lexer, overall_span, "Both the 'login_hint' attribute and a 'auth_uri_fields' field with the name 'login_hint' are specified. The 'login_hint' attribute is deprecated so remove it."));
            }""", """            for (k, _) in auth_uri_fields.iter() {
                if k == "login_hint" {
                    return Err(error_at_span(lexer, overall_span, "Both the 'login_hint' attribute and a 'auth_uri_fields' field with the name 'login_hint' are specified. The 'login_hint' attribute is deprecated so remove it."));
                }
            }""")]),
 dict(name="cf-ref-mutaccounts", kind="ref", edits=[(C, "let mut accounts = HashMap::new();", "let mut accounts: HashMap<String, Arc<Account>> = HashMap::with_capacity(4);")]),
]
