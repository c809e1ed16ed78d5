R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"; L="src/config.l"
def mut(n, ids, *ed): return dict(name="m6-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="m6-ref-"+n, kind="ref", ids=[], edits=list(ed))
def one(f, *p): return list((f, a, b) for a, b in p)
DUE='''                    if let Some(t) = last_notification {
                        if let Some(t) = t.checked_add(notify_interval) {
                            if t > now {
                                continue;
                            }
                        } else {
                            // `t + notify_interval` exceeds Instant's bounds, so the next
                            // notification will never be due.
                            continue;
                        }
                    }
'''
LRA='''                    if let Some(t) = lra.checked_add(act.refresh_retry(ct_lk.config())) {
                        return Some(t.to_owned());
                    }
                    // `lra + refresh_retry` exceeds Instant's bounds, so the next attempt will
                    // never be due.
                    return None;
'''
UPD='''        let invalidated = {
            let mut lk = self.locked_state.lock().unwrap();
            lk.update_conf(new_conf)
        };
        for act_name in invalidated {
            self.eventer.token_event(act_name, TokenEvent::Invalidated);
        }
        self.notifier.notify_changes();
        self.refresher.notify_changes();
'''
FIND='''                    details.push(
                        self.details
                            .iter()
                            .find(|x| x.0 == act_name.as_str())
                            .unwrap()
                            .clone(),
                    );
'''
RES='''        self.locked_state.lock().unwrap().restore(d)?;
        self.notifier.notify_changes();
        self.refresher.notify_changes();
'''
DRAIN='''            self.details[ts_idx].1 = AccountId::new(self);
            self.details[ts_idx].2 = ts;
'''
EVT='''        self.event_queue.lock().unwrap().push_back((act_name, kind));
        let mut event_lk = self.pred.lock().unwrap();
        *event_lk = true;
        self.condvar.notify_one();
'''
NCH='''        let mut notify_lk = self.pred.lock().unwrap();
        *notify_lk = true;
        self.condvar.notify_one();
'''
RCH='''        let mut refresh_lk = self.pred.lock().unwrap();
        *refresh_lk = true;
        self.condvar.notify_one();
'''
EDITS=[
 # variants of the time comparisons
 mut("due-no-else","C29",(N,DUE,DUE.replace('''                        } else {
                            // `t + notify_interval` exceeds Instant's bounds, so the next
                            // notification will never be due.
                            continue;
                        }
''','''                        }
'''))),
 mut("due-break","C29",(N,DUE,DUE.replace("continue;","break;",1))),
 mut("due-break-never","C29",(N,DUE,DUE[::-1].replace("continue;"[::-1],"break;"[::-1],1)[::-1])),
 mut("retry-fall","C26",(R,LRA,LRA[:LRA.index("                    // `lra")])),
 mut("retry-now","C26",(R,LRA,LRA.replace("return None;","return Some(Instant::now());"))),
 mut("retry-lra","C26",(R,LRA,LRA.replace("return None;","return Some(*lra);"))),
 ref("due-map-or",(N,DUE,'''                    if !last_notification
                        .map_or(true, |t| matches!(t.checked_add(notify_interval), Some(t) if t <= now))
                    {
                        continue;
                    }
''')),
 ref("due-match",(N,DUE,'''                    match last_notification.map(|t| t.checked_add(notify_interval)) {
                        None => (),
                        Some(Some(t)) if t <= now => (),
                        Some(_) => continue,
                    }
''')),
 ref("due-fn",(N,DUE,'''                    if !is_due(last_notification, notify_interval, now) {
                        continue;
                    }
'''),(N,"/// If `act_id` has a pending token, return the next time",'''/// Is a notification due?
fn is_due(last: &Option<Instant>, interval: Duration, now: Instant) -> bool {
    match last {
        Some(t) => match t.checked_add(interval) {
            Some(t) => t <= now,
            None => false,
        },
        None => true,
    }
}

/// If `act_id` has a pending token, return the next time''')),
 ref("due-let-else",(N,DUE,'''                    if let Some(last) = last_notification {
                        let Some(next) = last.checked_add(notify_interval) else {
                            continue;
                        };
                        if now < next {
                            continue;
                        }
                    }
''')),
 ref("retry-direct",(R,LRA,'''                    return lra.checked_add(act.refresh_retry(ct_lk.config()));
''')),
 ref("retry-match",(R,LRA,'''                    let retry = act.refresh_retry(ct_lk.config());
                    return match lra.checked_add(retry) {
                        Some(t) => Some(t),
                        None => None,
                    };
''')),
 # C01
 mut("c01-or-empty","C01",(S,FIND,'''                    let old = self
                        .details
                        .iter()
                        .find(|x| x.0 == act_name.as_str())
                        .unwrap()
                        .clone();
                    details.push(old);
                } else if self.details.iter().any(|x| {
                    x.0 == act_name.as_str() && matches!(x.2, TokenState::Active { refresh_token: None, .. })
                }) {
                    let old = self.details.iter().find(|x| x.0 == act_name.as_str()).unwrap().clone();
                    details.push(old);
''')),
 mut("c01-index","C01",(S,'''        for act_name in config.accounts.keys() {
            if let Some(old_act) = self.config.accounts.get(act_name) {''','''        for (i, act_name) in config.accounts.keys().enumerate() {
            if let Some(old_act) = self.config.accounts.get(act_name) {'''),(S,FIND,'''                    let old = match self.details.get(i) {
                        Some(x) if self.details.len() == config.accounts.len() => x,
                        _ => self.details.iter().find(|x| x.0 == act_name.as_str()).unwrap(),
                    };
                    details.push((act_name.to_owned(), old.1, old.2.clone()));
''')),
 mut("c01-prefix","C01",(S,FIND,FIND.replace("x.0 == act_name.as_str()","x.0.starts_with(act_name.as_str())"))),
 mut("c01-eqci","C01",(S,FIND,FIND.replace("x.0 == act_name.as_str()","x.0.eq_ignore_ascii_case(act_name)"))),
 # C15
 mut("c15-inv-notify-first","C15",(S,UPD,UPD.replace('''        for act_name in invalidated {
''','''        for act_name in invalidated.into_iter().take(16) {
'''))),
 mut("c15-inv-once","C15",(S,UPD,UPD.replace('''        for act_name in invalidated {
            self.eventer.token_event(act_name, TokenEvent::Invalidated);
        }
''','''        if let Some(act_name) = invalidated.into_iter().next() {
            self.eventer.token_event(act_name, TokenEvent::Invalidated);
        }
'''))),
 mut("c15-inv-expired","C15",(S,'''            .filter(|x| matches!(x.2, TokenState::Active { .. }))
''','''            .filter(|x| matches!(x.2, TokenState::Active { access_token_expiry, .. } if access_token_expiry > Instant::now()))
''')),
 mut("c15-inv-gone","C15",(S,'''            .filter(|x| !details.iter().any(|y| y.1 == x.1))
''','''            .filter(|x| details.iter().any(|y| y.0 == x.0 && y.1 != x.1))
''')),
 mut("c15-inv-name","C15",(S,'''            .filter(|x| !details.iter().any(|y| y.1 == x.1))
''','''            .filter(|x| !details.iter().any(|y| y.0 == x.0))
''')),
 mut("c15-inv-pending","C15",(S,'''            .filter(|x| matches!(x.2, TokenState::Active { .. }))
''','''            .filter(|x| !matches!(x.2, TokenState::Empty))
''')),
 # C14
 mut("c14-res-only-some","C14",(S,RES,RES.replace('''        self.refresher.notify_changes();
''',''))),
 mut("c14-conf-nref","C14",(S,UPD,UPD.replace('''        self.refresher.notify_changes();
''',''))),
 mut("c14-conf-if","C14",(S,UPD,UPD.replace('''        for act_name in invalidated {
''','''        if invalidated.is_empty() {
            return;
        }
        for act_name in invalidated {
'''))),
 mut("c14-conf-early","C14",(S,UPD,'''        self.notifier.notify_changes();
        self.refresher.notify_changes();
'''+UPD.replace('''        self.notifier.notify_changes();
        self.refresher.notify_changes();
''',''))),
 mut("c14-evt-order","C14",(V,EVT,'''        let mut event_lk = self.pred.lock().unwrap();
        *event_lk = true;
        self.condvar.notify_one();
        drop(event_lk);
        self.event_queue.lock().unwrap().push_back((act_name, kind));
''')),
 mut("c14-evt-first","C14",(V,EVT,'''        let mut queue = self.event_queue.lock().unwrap();
        queue.push_back((act_name, kind));
        if queue.len() > 1 {
            // The eventer already knows that there's something to do.
            return;
        }
        drop(queue);
        let mut event_lk = self.pred.lock().unwrap();
        *event_lk = true;
        self.condvar.notify_one();
''')),
 mut("c14-n-noflag","C14",(N,NCH,'''        let _notify_lk = self.pred.lock().unwrap();
        self.condvar.notify_one();
''')),
 mut("c14-r-cond","C14",(R,RCH,'''        let mut refresh_lk = self.pred.lock().unwrap();
        if !*refresh_lk {
            *refresh_lk = true;
            return;
        }
        self.condvar.notify_one();
''')),
 ref("r-unlock-first",(R,'''            *refresh_lk = false;
            drop(refresh_lk);

            let ct_lk = pstate.ct_lock();
            let now''','''            drop(refresh_lk);

            let ct_lk = pstate.ct_lock();
            let now'''),(R,'''            for act_id in to_refresh.iter() {
                refresher.sched_refresh(Arc::clone(&pstate), *act_id);
            }
''','''            for act_id in to_refresh.iter() {
                refresher.sched_refresh(Arc::clone(&pstate), *act_id);
            }
            *refresher.pred.lock().unwrap() = false;
''')),
 ref("n-recheck",(N,'''            let next_wakeup = self.next_wakeup(&pstate);
            let mut notify_lk = self.pred.lock().unwrap();
            while''','''            *self.pred.lock().unwrap() = false;
            let next_wakeup = self.next_wakeup(&pstate);
            let mut notify_lk = self.pred.lock().unwrap();
            while'''),),
 ref("n-before-lock",(N,'''            *notify_lk = false;
            drop(notify_lk);

            let mut auth_cmds''','''            drop(notify_lk);

            let mut auth_cmds'''),(N,'''            drop(ct_lk);

            for (act_name, cmd, url)''','''            drop(ct_lk);
            *self.pred.lock().unwrap() = false;

            for (act_name, cmd, url)''')),
 mut("c14-new-notify","C14",(Q,'''    drop(ct_lk);
    pstate.notifier.notify_changes();
''','''    let announce = ct_lk.config().auth_notify_cmd.is_some();
    drop(ct_lk);
    if announce {
        pstate.notifier.notify_changes();
    }
''')),
 ref("new-early",(Q,'''    drop(ct_lk);
    pstate.notifier.notify_changes();
''','''    drop(ct_lk);
'''),(Q,'''    let url = Url::parse_with_params(''','''    pstate.notifier.notify_changes();
    let url = Url::parse_with_params(''')),
 mut("c14-trans","C14",(R,'''                                // it should next wake up.
                                refresher.notify_changes();''','''                                // it should next wake up.
                                if act_name.is_empty() {
                                    refresher.notify_changes();
                                }''') if False else (R,'''                                // when
''','') if False else (R,'''                            RefreshKind::Refreshed => {
                                refresher.notify_changes();
''','''                            RefreshKind::Refreshed => {
''')),
 # C02 / C25
 mut("c02-late","C02 C25",(S,'''        for (act_name, ts) in restore.drain() {
''','''        for (act_name, ts) in restore.drain() {
            if matches!(ts, TokenState::Active { refresh_token: None, .. }) {
                continue;
            }
''')),
 mut("c02-any-version","C02",(S,'''        if d.version != DUMP_VERSION {''','''        if d.version > DUMP_VERSION {''')),
 mut("c02-no-restorable","C02",(S,'''                if act.secure_restorable(act_dump) {''','''                if d.accounts.len() == 1 || act.secure_restorable(act_dump) {''')),
 mut("c02-pending-kept","C02 C25",(S,'''                        (
                            &TokenState::Empty | &TokenState::Pending { .. },
                            &TokenState::Active { .. },
                        ) => {
                            restore''','''                        (&TokenState::Pending { .. }, &TokenState::Active { .. }) => (),
                        (&TokenState::Empty, &TokenState::Active { .. }) => {
                            restore''')),
 mut("c02-overwrite-expired","C02",(S,'''                        (&TokenState::Active { .. }, _) => (),
''','''                        (
                            &TokenState::Active {
                                access_token_expiry,
                                ..
                            },
                            &TokenState::Active { .. },
                        ) if access_token_expiry < Instant::now() => {
                            restore.insert(act_name.to_owned(), new_ts);
                        }
                        (&TokenState::Active { .. }, _) => (),
''')),
 mut("c25-restore-partial","C25",(S,'''        for (act_name, ts) in restore.drain() {
            let ts_idx''','''        for (act_name, ts) in restore.drain() {
            if act_name.is_empty() {
                return Err("Invalid account name in dump".into());
            }
            let ts_idx''')),
 mut("c25-reload-partial","C25",(M,'''                Err(e) => stream.write_all(format!("error:{e:}").as_bytes())?,
            }
            return Ok(());
        }
        "refresh" => {''','''                Err(e) => {
                    pstate.refresher.notify_changes();
                    pstate.notifier.notify_changes();
                    if e.kind_is_missing() {
                        stream.write_all(b"ok:")?
                    } else {
                        stream.write_all(format!("error:{e:}").as_bytes())?
                    }
                }
            }
            return Ok(());
        }
        "refresh" => {'''.replace("e.kind_is_missing()","e.to_string().is_empty()"))),
 # C04
 mut("c04-keep-id","C04",(S,DRAIN,DRAIN.replace('''            self.details[ts_idx].1 = AccountId::new(self);
''','''            if !matches!(self.details[ts_idx].2, TokenState::Empty) {
                self.details[ts_idx].1 = AccountId::new(self);
            }
'''))),
 mut("c04-same-kind","C04",(S,'''        let new_id = AccountId::new(&mut self.guard);
        self.guard.details[i].1 = new_id;
        self.guard.details[i].2 = new_tokenstate;
        new_id''','''        if matches!(
            (&self.guard.details[i].2, &new_tokenstate),
            (TokenState::Active { .. }, TokenState::Active { .. })
        ) {
            self.guard.details[i].2 = new_tokenstate;
            return act_id;
        }
        let new_id = AccountId::new(&mut self.guard);
        self.guard.details[i].1 = new_id;
        self.guard.details[i].2 = new_tokenstate;
        new_id''')),
 mut("c04-ongoing","C04",(S,'''            ts.1 = new_id;
            *ongoing_refresh = new_ongoing_refresh;
            return new_id;''','''            if *ongoing_refresh == new_ongoing_refresh {
                return act_id;
            }
            *ongoing_refresh = new_ongoing_refresh;
            return new_id;''')),
 mut("c04-mod","C04",(S,'''        guard.account_count += 1;
        new_id
''','''        guard.account_count = (guard.account_count + 1) % (1 << 16);
        new_id
''')),
 mut("c04-upd-reset","C04 C01",(S,'''        self.config = config;
        self.details = details;
        invalidated''','''        self.account_count = details.iter().map(|x| x.1.id + 1).max().unwrap_or(0);
        self.config = config;
        self.details = details;
        invalidated''')),
 # C03
 mut("c03-lookup-again","C03",(R,'''                                if ct_lk.is_act_id_valid(act_id) {
                                    let mut new_ts = ct_lk.tokenstate(act_id).clone();
                                    if let TokenState::Active {
                                        ref mut last_refresh_attempt,''','''                                let act_id = ct_lk.validate_act_name(&act_name).unwrap_or(act_id);
                                if ct_lk.is_act_id_valid(act_id) {
                                    let mut new_ts = ct_lk.tokenstate(act_id).clone();
                                    if let TokenState::Active {
                                        ref mut last_refresh_attempt,''')),
 mut("c03-fail-name","C03",(H,'''    let mut ct_lk = pstate.ct_lock();
    if ct_lk.is_act_id_valid(act_id) {
        // It's''','''    let mut ct_lk = pstate.ct_lock();
    let act_id = match ct_lk.act_ids().next() {
        Some(x) if ct_lk.act_ids().count() == 1 => x,
        _ => act_id,
    };
    if ct_lk.is_act_id_valid(act_id) {
        // It's''')),
 mut("c03-exch-state","C03 C07",(H,'''    let mut ct_lk = pstate.ct_lock();
    if !ct_lk.is_act_id_valid(act_id) {
        return Ok(());
    }
''','''    let mut ct_lk = pstate.ct_lock();
    let act_id = match ct_lk.act_id_matching_token_state(&state) {
        Some(x) => x,
        None if ct_lk.is_act_id_valid(act_id) => act_id,
        None => return Ok(()),
    };
''')),
 # C16
 mut("c16-newest","C16",(V,"self.event_queue.lock().unwrap().pop_front()","self.event_queue.lock().unwrap().pop_back()")),
 mut("c16-drop-dup","C16",(V,EVT,EVT.replace('''        self.event_queue.lock().unwrap().push_back((act_name, kind));
''','''        let mut queue = self.event_queue.lock().unwrap();
        queue.retain(|x| x.0 != act_name);
        queue.push_back((act_name, kind));
        drop(queue);
'''))),
 mut("c16-cap","C16 C15",(V,EVT,EVT.replace('''        self.event_queue.lock().unwrap().push_back((act_name, kind));
''','''        let mut queue = self.event_queue.lock().unwrap();
        if queue.len() < 64 {
            queue.push_back((act_name, kind));
        }
        drop(queue);
'''))),
 mut("c16-wait-forever","C16",(V,'''                                    child.kill().ok();
                                    child.wait().ok();
                                    error!("'{token_event_cmd:}' exceeded timeout");''','''                                    error!("'{token_event_cmd:}' exceeded timeout");
                                    child.wait().ok();''')),
 mut("c16-no-reap","C16",(V,'''                                    child.wait().ok();
''','')),
 mut("c16-err-break","C16",(V,'''                            Err(e) => error!("Couldn't execute '{token_event_cmd:}': {e:}"),''','''                            Err(e) => {
                                error!("Couldn't execute '{token_event_cmd:}': {e:}");
                                break;
                            }''')),
 mut("c16-cmd-once","C16 C17",(V,'''        thread::spawn(move || loop {
            let mut eventer_lk''','''        let mut last_cmd: Option<String> = None;
        thread::spawn(move || loop {
            let mut eventer_lk'''),(V,'''                {
                    token_event_cmd
                } else {
                    break;
                };''','''                {
                    last_cmd = Some(token_event_cmd.clone());
                    token_event_cmd
                } else if let Some(x) = &last_cmd {
                    x.clone()
                } else {
                    break;
                };''')),
 mut("c16-bg","C16",(V,'''                match env::var("SHELL") {
                    Ok(s) => {
                        match Command::new(s)''','''                let token_event_cmd = format!("{token_event_cmd} &");
                match env::var("SHELL") {
                    Ok(s) => {
                        match Command::new(s)''')),
 # C12
 mut("c12-stale-flag","C12",(R,'''                            access_token_expiry: expiry,
                            ongoing_refresh: false,''','''                            access_token_expiry: expiry,
                            ongoing_refresh: matches!(
                                ct_lk.tokenstate(act_id),
                                TokenState::Active { ongoing_refresh: true, .. }
                            ),''')),
 mut("c12-cond-end","C12",(R,'''                                                        if ct_lk.is_act_id_valid(act_id) {
                                                            ct_lk.tokenstate_set_ongoing_refresh(
                                                                act_id, false,
                                                            );
                                                        }''','''                                                        if ct_lk.is_act_id_valid(act_id) && ct_lk.config().transient_error_if_cmd.is_some() {
                                                            ct_lk.tokenstate_set_ongoing_refresh(
                                                                act_id, false,
                                                            );
                                                        }''')),
 mut("c12-start-twice","C12",(R,'''                    if !*ongoing_refresh {
                        *ongoing_refresh = true;''','''                    let idle = !*ongoing_refresh;
                    if idle || act_id_is_old(&ct_lk, act_id) {
                        *ongoing_refresh = true;'''),(R,'''impl Refresher {
''','''fn act_id_is_old(ct_lk: &CTGuard, act_id: AccountId) -> bool {
    matches!(ct_lk.tokenstate(act_id), TokenState::Active { last_refresh_attempt: Some(t), .. }
        if t.checked_add(Duration::from_secs(3600)).is_some_and(|t| t < Instant::now()))
}

impl Refresher {
''')),
 # C06
 mut("c06-status","C06",(M,'''            drop(ct_lk);
            acts.sort();''','''            if acts.is_empty() && pstate.ct_lock().config().auth_notify_cmd.is_none() {
                stream.write_all(b"error:No accounts configured")?;
                return Ok(());
            }
            drop(ct_lk);
            acts.sort();''')),
 mut("c06-fail","C06",(H,'''    if let Some(err_msg) = parsed["error"].as_str() {
        drop(ct_lk);
        fail''','''    if let Some(err_msg) = parsed["error"].as_str() {
        fail''')),
 mut("c06-pred-then-state","C06",(N,'''            let next_wakeup = self.next_wakeup(&pstate);
            let mut notify_lk = self.pred.lock().unwrap();
            while''','''            let mut notify_lk = self.pred.lock().unwrap();
            let next_wakeup = self.next_wakeup(&pstate);
            while'''),(S,UPD,'''        let mut lk = self.locked_state.lock().unwrap();
        let invalidated = lk.update_conf(new_conf);
        self.notifier.notify_changes();
        self.refresher.notify_changes();
        drop(lk);
        for act_name in invalidated {
            self.eventer.token_event(act_name, TokenEvent::Invalidated);
        }
''')),
 # contracts
 mut("valid-loop-break","C34 C03",(S,'''        self.guard.details.iter().any(|x| x.1 == act_id)''','''        for (_, id, ts) in self.guard.details.iter() {
            if *id == act_id {
                return true;
            }
            if id.id > act_id.id && matches!(ts, TokenState::Empty) {
                break;
            }
        }
        false''')),
 mut("valid-early","C34",(S,'''        self.guard.details.iter().any(|x| x.1 == act_id)''','''        if self.guard.account_count > act_id.id + 1000 {
            return false;
        }
        self.guard.details.iter().any(|x| x.1 == act_id)''')),
 mut("name-trim","C11 C33",(S,'''            .find(|x| x.0 == act_name)
            .map(|x| x.1)''','''            .find(|x| x.0.trim() == act_name.trim())
            .map(|x| x.1)''')),
]
for e in EDITS:
    e["edits"]=[x for y in e["edits"] for x in (y if type(y) is list else [y])]
