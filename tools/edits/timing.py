C = "src/config.rs"
R = "src/server/refresher.rs"
H = "src/server/http_server.rs"
RET = """                if let Some(lra) = last_refresh_attempt {"""
EDITS = [
 dict(name="t-global-first", kind="mut", ids=["C26"], edits=[(C, "self.refresh_retry\n            .or(config.refresh_retry)", "config.refresh_retry\n            .or(self.refresh_retry)")]),
 dict(name="t-wrong-global", kind="mut", ids=["C26"], edits=[(C, "self.refresh_at_least\n            .or(config.refresh_at_least)", "self.refresh_at_least\n            .or(config.refresh_retry)")]),
 dict(name="t-no-global", kind="mut", ids=["C26"], edits=[(C, "self.refresh_before_expiry\n            .or(config.refresh_before_expiry)", "self.refresh_before_expiry")]),
 dict(name="t-default", kind="mut", ids=["C26"], edits=[(C, ".unwrap_or(REFRESH_RETRY_DEFAULT)", ".unwrap_or(REFRESH_BEFORE_EXPIRY_DEFAULT)")]),
 dict(name="t-max", kind="mut", ids=["C26"], edits=[(R, "expiry = cmp::min(expiry, t);", "expiry = cmp::max(expiry, t);")]),
 dict(name="t-ignore-lra", kind="mut", ids=["C26"], edits=[(R, RET, "                if let Some(lra) = last_refresh_attempt.filter(|x| x > access_token_expiry) {")]),
 dict(name="t-retry-swap", kind="mut", ids=["C26"], edits=[(R, "lra.checked_add(act.refresh_retry(ct_lk.config()))", "lra.checked_add(act.refresh_before_expiry(ct_lk.config()))")]),
 dict(name="t-late", kind="mut", ids=["C26"], edits=[(R, "Some(t) => t <= now,", "Some(t) => t <= now + Duration::from_secs(5),")]),
 dict(name="t-always", kind="mut", ids=["C26"], edits=[(R, "                        None => false,\n                    },\n                )\n                .collect", "                        None => matches!(ct_lk.tokenstate(*act_id), TokenState::Active { .. }),\n                    },\n                )\n                .collect")]),
 dict(name="t-any", kind="mut", ids=["C26"], edits=[(R, "            for act_id in to_refresh.iter() {\n", "            let ct_lk = pstate.ct_lock();\n            let all = ct_lk.act_ids().collect::<Vec<_>>();\n            drop(ct_lk);\n            for act_id in if to_refresh.is_empty() { Vec::new() } else { all }.iter() {\n")]),
 dict(name="t-obtained", kind="mut", ids=["C26"], edits=[(R, "access_token_obtained.checked_add(act.refresh_at_least", "access_token_expiry.checked_add(act.refresh_at_least")]),
 dict(name="t-fallback", kind="mut", ids=["C26"], edits=[(R, ".unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));", ".unwrap_or(*access_token_obtained);")]),
 dict(name="t-no-record", kind="mut", ids=["C26"], edits=[(R, "                    *last_refresh_attempt = Some(Instant::now());\n                    let r = r.to_owned();", "                    let _ = last_refresh_attempt;\n                    let r = r.to_owned();")]),
 dict(name="t-record-once", kind="mut", ids=["C26"], edits=[(R, "                    *last_refresh_attempt = Some(Instant::now());\n                    let r = r.to_owned();", "                    last_refresh_attempt.get_or_insert_with(Instant::now);\n                    let r = r.to_owned();")]),
 dict(name="t-forget", kind="mut", ids=["C26"], edits=[(R, "*last_refresh_attempt = Some(Instant::now());\n                                        *consecutive", "*last_refresh_attempt = None;\n                                        *consecutive")]),
 dict(name="t-new-keeps", kind="mut", ids=["C26"], edits=[(R, "last_refresh_attempt: None,", "last_refresh_attempt: Some(now),")]),
 dict(name="t-ref-pick", kind="ref", edits=[(C, """        self.refresh_retry
            .or(config.refresh_retry)
            .unwrap_or(REFRESH_RETRY_DEFAULT)""", """        match (self.refresh_retry, config.refresh_retry) {
            (Some(x), _) => x,
            (None, Some(x)) => x,
            (None, None) => REFRESH_RETRY_DEFAULT,
        }"""), (C, """        self.refresh_at_least
            .or(config.refresh_at_least)
            .unwrap_or(REFRESH_AT_LEAST_DEFAULT)""", """        if let Some(x) = self.refresh_at_least {
            return x;
        }
        config.refresh_at_least.unwrap_or(REFRESH_AT_LEAST_DEFAULT)""")]),
 dict(name="t-ref-helper", kind="ref", edits=[(C, """        self.refresh_retry
            .or(config.refresh_retry)
            .unwrap_or(REFRESH_RETRY_DEFAULT)""", """        setting(self.refresh_retry, config.refresh_retry, REFRESH_RETRY_DEFAULT)"""), (C, """        self.refresh_at_least
            .or(config.refresh_at_least)
            .unwrap_or(REFRESH_AT_LEAST_DEFAULT)""", """        setting(self.refresh_at_least, config.refresh_at_least, REFRESH_AT_LEAST_DEFAULT)"""),
   (C, "fn check_not_assigned<T>(", "fn setting(own: Option<Duration>, global: Option<Duration>, default: Duration) -> Duration {\n    own.or(global).unwrap_or(default)\n}\n\nfn check_not_assigned<T>(")]),
 dict(name="t-ref-ifmin", kind="ref", edits=[(R, "                    expiry = cmp::min(expiry, t);", "                    if t < expiry {\n                        expiry = t;\n                    }")]),
 dict(name="t-ref-order", kind="ref", edits=[(R, """                let mut expiry = access_token_expiry
                    .checked_sub(act.refresh_before_expiry(ct_lk.config()))
                    .unwrap_or_else(|| cmp::min(Instant::now(), *access_token_expiry));

                // There is no concept of Instant::MAX, so if `access_token_obtained + d` exceeds
                // Instant's bounds, there's nothing we can fall back on.
                if let Some(t) =
                    access_token_obtained.checked_add(act.refresh_at_least(ct_lk.config()))
                {
                    expiry = cmp::min(expiry, t);
                }
                Some(expiry.to_owned())""", """                let before = act.refresh_before_expiry(ct_lk.config());
                let expiry = match access_token_expiry.checked_sub(before) {
                    Some(x) => x,
                    None => cmp::min(Instant::now(), *access_token_expiry),
                };
                let at_least = act.refresh_at_least(ct_lk.config());
                match access_token_obtained.checked_add(at_least) {
                    Some(t) => Some(cmp::min(t, expiry)),
                    None => Some(expiry),
                }""")]),
 dict(name="t-ref-loop", kind="ref", edits=[(R, """            let to_refresh = ct_lk
                .act_ids()
                .filter(
                    |act_id| match refresher.refresh_at(&pstate, &ct_lk, *act_id) {
                        Some(t) => t <= now,
                        None => false,
                    },
                )
                .collect::<HashSet<_>>();""", """            let mut to_refresh = HashSet::new();
            for act_id in ct_lk.act_ids() {
                if let Some(t) = refresher.refresh_at(&pstate, &ct_lk, act_id) {
                    if t <= now {
                        to_refresh.insert(act_id);
                    }
                }
            }""")]),
 dict(name="t-ref-vec", kind="ref", edits=[(R, ".collect::<HashSet<_>>();", ".collect::<Vec<_>>();"), (R, "    collections::HashSet,\n", ""), (R, "Some(t) => t <= now,", "Some(t) => now >= t,")]),
 dict(name="t-ref-isdue", kind="ref", edits=[(R, """                .filter(
                    |act_id| match refresher.refresh_at(&pstate, &ct_lk, *act_id) {
                        Some(t) => t <= now,
                        None => false,
                    },
                )
""", """                .filter(|act_id| {
                    refresher
                        .refresh_at(&pstate, &ct_lk, *act_id)
                        .is_some_and(|t| t <= now)
                })
""")]),
 dict(name="t-ref-retryfn", kind="ref", edits=[(R, """                if let Some(lra) = last_refresh_attempt {""", """                let retry = act.refresh_retry(ct_lk.config());
                if let Some(lra) = last_refresh_attempt {"""), (R, "lra.checked_add(act.refresh_retry(ct_lk.config()))", "lra.checked_add(retry)"), (R, "return Some(t.to_owned());", "return Some(t);")]),
]
