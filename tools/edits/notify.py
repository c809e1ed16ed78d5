N = "src/server/notifier.rs"
V = "src/server/eventer.rs"
EDITS = [
 dict(name="n-remind-not-marked-when-no-url", kind="mut", ids=["C29"], edits=[(N, "ct_lk.tokenstate_set_last_notification(act_id, now);", "if last_notification_is_none { ct_lk.tokenstate_set_last_notification(act_id, now); }"), (N, "let url = url.clone();", "let last_notification_is_none = last_notification.is_none(); let url = url.clone();")]),
 dict(name="n-interval-wrong-way", kind="mut", ids=["C29"], edits=[(N, "if t > now {", "if t < now {")]),
 dict(name="n-never-again", kind="mut", ids=["C29"], edits=[(N, "if let Some(t) = t.checked_add(notify_interval) {\n                            if t > now {\n                                continue;\n                            }\n                        }", "let _ = (t, notify_interval); continue;")]),
 dict(name="n-wrong-interval", kind="mut", ids=["C29"], edits=[(N, "let notify_interval = ct_lk.config().auth_notify_interval;", "let notify_interval = Duration::from_secs(60);")]),
 dict(name="n-wakeup-interval", kind="mut", ids=["C29"], edits=[(N, "t.checked_add(ct_lk.config().auth_notify_interval)", "t.checked_add(Duration::from_secs(600))")]),
 dict(name="n-wait-no-timeout", kind="mut", ids=["C29"], edits=[(N, "notify_lk = self.condvar.wait_timeout(notify_lk, d).unwrap().0", "{ let _ = d; notify_lk = self.condvar.wait(notify_lk).unwrap() }")]),
 dict(name="n-one-thread", kind="mut", ids=["C29"], edits=[(N, "for (act_name, cmd, url) in auth_cmds.into_iter() {\n                thread::spawn(move || match", "thread::spawn(move || for (act_name, cmd, url) in auth_cmds.into_iter() {\n                match"), (N, "Err(e) => error!(\"{e:}\"),\n                });\n            }\n        });", "Err(e) => error!(\"{e:}\"),\n                }\n            });\n        });")]),
 dict(name="n-no-thread", kind="mut", ids=["C29"], edits=[(N, "for (act_name, cmd, url) in auth_cmds.into_iter() {\n                thread::spawn(move || match", "for (act_name, cmd, url) in auth_cmds.into_iter() {\n                (move || match"), (N, "Err(e) => error!(\"{e:}\"),\n                });\n            }\n        });", "Err(e) => error!(\"{e:}\"),\n                })();\n            }\n        });")]),
 dict(name="n-cmd-with-name", kind="mut", ids=["C17"], edits=[(N, "auth_cmds.push((act.name.to_owned(), cmd.clone(), url));", "auth_cmds.push((act.name.to_owned(), cmd.replace(\"%s\", &act.name), url));")]),
 dict(name="n-wrong-cmd", kind="mut", ids=["C17"], edits=[(N, "match pstate.ct_lock().config().error_notify_cmd.clone() {", "match pstate.ct_lock().config().auth_notify_cmd.clone() {")]),
 dict(name="v-sh", kind="mut", ids=["C17"], edits=[(V, "match Command::new(s)\n", "match Command::new(if s.is_empty() { \"/bin/sh\".to_owned() } else { s })\n")]),
 dict(name="v-lifo", kind="mut", ids=["C16"], edits=[(V, "pop_front", "pop_back")]),
 dict(name="v-pushfront", kind="mut", ids=["C16"], edits=[(V, "push_back", "push_front")]),
 dict(name="v-nokill", kind="mut", ids=["C16"], edits=[(V, "child.kill().ok();\n                                    child.wait().ok();", "")]),
 dict(name="v-noreap", kind="mut", ids=["C16"], edits=[(V, "child.wait().ok();", "")]),
 dict(name="v-break-on-fail", kind="mut", ids=["C16"], edits=[(V, "Err(e) => error!(\"Couldn't execute '{token_event_cmd:}': {e:}\"),", "Err(e) => { error!(\"Couldn't execute '{token_event_cmd:}': {e:}\"); break; }")]),
 dict(name="v-return-on-fail", kind="mut", ids=["C16"], edits=[(V, "Err(e) => error!(\"Couldn't execute '{token_event_cmd:}': {e:}\"),", "Err(e) => { error!(\"Couldn't execute '{token_event_cmd:}': {e:}\"); return; }")]),
 dict(name="v-one-per-wakeup", kind="mut", ids=["C16"], edits=[(V, "                    Err(e) => error!(\"{e:}\"),\n                }\n            }\n        });", "                    Err(e) => error!(\"{e:}\"),\n                }\n                if self.event_queue.lock().unwrap().len() > 100 { break; }\n            }\n        });")]),
 dict(name="v-thread-per-event", kind="mut", ids=["C16"], edits=[(V, "match env::var(\"SHELL\") {\n                    Ok(s) => {", "thread::spawn(move || match env::var(\"SHELL\") {\n                    Ok(s) => {"), (V, "                    Err(e) => error!(\"{e:}\"),\n                }\n            }\n        });", "                    Err(e) => error!(\"{e:}\"),\n                });\n            }\n        });")]),
 dict(name="v-timeout", kind="mut", ids=["C16"], edits=[(V, "from_secs(30)", "from_secs(300)")]),
 # ------------------------------------------------ behaviour kept
 dict(name="n-ref-helper", kind="ref", edits=[(N, "                    if let Some(t) = last_notification {\n                        if let Some(t) = t.checked_add(notify_interval) {\n                            if t > now {\n                                continue;\n                            }\n                        }\n                    }\n", "                    if !is_due(*last_notification, notify_interval, now) {\n                        continue;\n                    }\n"),
   (N, "pub struct Notifier {", "fn is_due(last: Option<Instant>, interval: Duration, now: Instant) -> bool {\n    match last.and_then(|t| t.checked_add(interval)) {\n        Some(t) => t <= now,\n        None => true,\n    }\n}\n\npub struct Notifier {")]),
 dict(name="n-ref-mark-first", kind="ref", edits=[(N, "                    let url = url.clone();\n                    let act = ct_lk.account(act_id);\n", "                    let url = url.clone();\n                    ct_lk.tokenstate_set_last_notification(act_id, now);\n                    let act = ct_lk.account(act_id);\n"), (N, "                    ct_lk.tokenstate_set_last_notification(act_id, now);\n                }\n            }\n            drop", "                }\n            }\n            drop")]),
 dict(name="n-ref-run-helper", kind="ref", edits=[(N, "                thread::spawn(move || match env::var(\"SHELL\") {\n                    Ok(s) => {\n                        match Command::new(s)\n                            .env(\"PIZAUTH_ACCOUNT\", act_name.as_str())\n                            .env(\"PIZAUTH_URL\", url.as_str())\n                            .args([\"-c\", &cmd])\n                            .output()", "                thread::spawn(move || match env::var(\"SHELL\") {\n                    Ok(s) => {\n                        let mut c = Command::new(s);\n                        c.env(\"PIZAUTH_ACCOUNT\", act_name.as_str());\n                        c.env(\"PIZAUTH_URL\", url.as_str());\n                        c.arg(\"-c\").arg(&cmd);\n                        match c.output()")]),
 dict(name="n-ref-whileloop", kind="ref", edits=[(N, "for (act_name, cmd, url) in auth_cmds.into_iter() {", "for x in auth_cmds {\n let (act_name, cmd, url) = x;")]),
 dict(name="v-ref-whilelet", kind="ref", edits=[(V, "            loop {\n                let (act_name, event) =\n                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {\n                        (act_name, event)\n                    } else {\n                        break;\n                    };\n", "            loop {\n                let next = self.event_queue.lock().unwrap().pop_front();\n                let Some((act_name, event)) = next else { break };\n"), (V, "let token_event_cmd = if let Some(token_event_cmd) =\n                    pstate.ct_lock().config().token_event_cmd.clone()\n                {\n                    token_event_cmd\n                } else {\n                    break;\n                };", "let cmd = pstate.ct_lock().config().token_event_cmd.clone();\n                let token_event_cmd = match cmd { Some(c) => c, None => break };")]),
 dict(name="v-ref-helper", kind="ref", edits=[(V, "                match env::var(\"SHELL\") {", "                run_cmd(&act_name, &event, token_event_cmd);\n            }\n        });\n        Ok(())\n    }\n\n    pub fn token_event(&self, act_name: String, kind: TokenEvent) {\n        self.event_queue.lock().unwrap().push_back((act_name, kind));\n        let mut event_lk = self.pred.lock().unwrap();\n        *event_lk = true;\n        self.condvar.notify_one();\n    }\n}\n\nfn run_cmd(act_name: &str, event: &TokenEvent, token_event_cmd: String) {\n                match env::var(\"SHELL\") {"), (V, ".env(\"PIZAUTH_ACCOUNT\", act_name.as_str())", ".env(\"PIZAUTH_ACCOUNT\", act_name)"), (V, "                    Err(e) => error!(\"{e:}\"),\n                }\n            }\n        });\n\n        Ok(())\n    }\n\n    pub fn token_event(&self, act_name: String, kind: TokenEvent) {\n        self.event_queue.lock().unwrap().push_back((act_name, kind));\n        let mut event_lk = self.pred.lock().unwrap();\n        *event_lk = true;\n        self.condvar.notify_one();\n    }\n}\n", "                    Err(e) => error!(\"{e:}\"),\n                }\n}\n")]),
]
