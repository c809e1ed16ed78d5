R="src/server/refresher.rs"; H="src/server/http_server.rs"; M="src/server/mod.rs"; S="src/server/state.rs"; Q="src/server/request_token.rs"; N="src/server/notifier.rs"; V="src/server/eventer.rs"; C="src/config.rs"; A="src/main.rs"; U="src/user_sender.rs"
import os
REPO=os.environ.get("PZ_REPO","/repo")
def mut(n, ids, *ed): return dict(name="m10-mut-"+n, kind="mut", ids=ids.split(), edits=list(ed))
def ref(n, *ed): return dict(name="m10-ref-"+n, kind="ref", ids=[], edits=list(ed))
def cut(f, a, b):
    s = open(os.path.join(REPO, f)).read()
    i = s.find(a)
    j = s.find(b, i + len(a))
    return s[i:j] if i >= 0 and j >= 0 else "\0missing"
# notifier: the loop's parts as methods, the commands run by one shared function
NL=cut(N,"        thread::spawn(move || loop {\n            let next_wakeup","        Ok(())\n    }\n\n    pub fn notify_changes")
NL2='''        thread::spawn(move || loop {
            self.sleep(self.next_wakeup(&pstate));
            for (act_name, cmd, url) in self.pending(&pstate) {
                run_shell(act_name, cmd, "PIZAUTH_URL", url.to_string());
            }
        });

'''
NF='''    fn sleep(&self, next_wakeup: Option<Instant>) {
        let mut lk = self.pred.lock().unwrap();
        while !*lk {
            lk = match next_wakeup.map(|t| t.checked_duration_since(Instant::now())) {
                Some(Some(d)) => self.condvar.wait_timeout(lk, d).unwrap().0,
                Some(None) => break,
                None => self.condvar.wait(lk).unwrap(),
            };
        }
        *lk = false;
    }

    /// Mark the accounts whose reminders are due, returning what to run for them.
    fn pending(&self, pstate: &AuthenticatorState) -> Vec<(String, String, url::Url)> {
        let mut cmds = Vec::new();
        let mut ct_lk = pstate.ct_lock();
        let now = Instant::now();
        let ids: Vec<AccountId> = ct_lk.act_ids().collect();
        for act_id in ids {
            let url = match ct_lk.tokenstate(act_id) {
                TokenState::Pending {
                    last_notification,
                    url,
                    ..
                } => {
                    let due = match last_notification {
                        None => true,
                        Some(t) => t
                            .checked_add(ct_lk.config().auth_notify_interval)
                            .is_some_and(|x| x <= now),
                    };
                    if !due {
                        continue;
                    }
                    url.clone()
                }
                _ => continue,
            };
            if let Some(cmd) = ct_lk.config().auth_notify_cmd.clone() {
                cmds.push((ct_lk.account(act_id).name.clone(), cmd, url));
            }
            ct_lk.tokenstate_set_last_notification(act_id, now);
        }
        cmds
    }

    pub fn notify_changes'''
NE=cut(N,"                thread::spawn(move || match env::var(\"SHELL\") {\n                    Ok(s) => {\n                        match Command::new(s)\n                            .env(\"PIZAUTH_ACCOUNT\", act_name.as_str())\n                            .env(\"PIZAUTH_MSG\"","            }\n            None => error!(\"{act_name:}: {msg:}\"),")
NE2='''                run_shell(act_name, cmd, "PIZAUTH_MSG", msg);
'''
RUN='''/// Run `cmd` with the user's shell on a thread of its own.
fn run_shell(act_name: String, cmd: String, var: &'static str, val: String) {
    thread::spawn(move || {
        let shell = match env::var("SHELL") {
            Ok(s) => s,
            Err(e) => {
                error!("{e:}");
                return;
            }
        };
        let output = Command::new(shell)
            .env("PIZAUTH_ACCOUNT", &act_name)
            .env(var, val)
            .args(["-c", &cmd])
            .output();
        match output {
            Ok(o) if o.status.success() => (),
            Ok(o) => error!(
                "{act_name:}: error when running '{cmd:}': {}",
                String::from_utf8_lossy(&o.stdout)
            ),
            Err(e) => error!("{act_name:}: error when running '{cmd:}': {e:}"),
        }
    });
}

/// If `act_id` has a pending token, return the next time when that user should be notified that'''
NTAIL="/// If `act_id` has a pending token, return the next time when that user should be notified that"
# eventer: the command in a function that returns an error
VL=cut(V,"                match env::var(\"SHELL\") {","            }\n        });")
VL2='''                if let Err(e) = run_event_cmd(&token_event_cmd, &act_name, &event) {
                    error!("{e:}");
                }
'''
VF='''/// Run `cmd` for an event of `act_name`, waiting until it ended or took too long.
fn run_event_cmd(cmd: &str, act_name: &str, event: &TokenEvent) -> Result<(), String> {
    let shell = env::var("SHELL").map_err(|e| e.to_string())?;
    let mut child = Command::new(shell)
        .arg("-c")
        .arg(cmd)
        .env("PIZAUTH_ACCOUNT", act_name)
        .env("PIZAUTH_EVENT", event.to_string())
        .spawn()
        .map_err(|e| format!("Couldn't execute '{cmd:}': {e:}"))?;
    let status = child
        .wait_timeout(NEW_ACCESS_TOKEN_CMD_TIMEOUT)
        .map_err(|e| format!("Waiting on '{cmd:}' failed: {e:}"))?;
    match status {
        Some(s) if s.success() => Ok(()),
        Some(s) => match s.code() {
            Some(c) => Err(format!("'{cmd:}' returned {c}")),
            None => Err(format!("'{cmd:}' returned <Unknown exit code>")),
        },
        None => {
            child.kill().ok();
            child.wait().ok();
            Err(format!("'{cmd:}' exceeded timeout"))
        }
    }
}

pub struct Eventer {'''
# state: a lookup by reference in the guard, shared by its methods
SU=cut(S,"        for act_name in config.accounts.keys() {\n            if let Some(old_act)","        let invalidated = self")
SU2='''        for (act_name, new_act) in &config.accounts {
            let kept = match self.config.accounts.get(act_name) {
                Some(old_act) if new_act.secure_eq(old_act) => {
                    self.details.iter().find(|x| &x.0 == act_name).cloned()
                }
                _ => None,
            };
            let detail = match kept {
                Some(x) => x,
                // The account is new or has changed: references to its old state become stale.
                None => (act_name.clone(), AccountId::new(self), TokenState::Empty),
            };
            details.push(detail);
        }

'''
SR=cut(S,"        for (act_name, ts) in restore.drain() {","        Ok(())\n    }\n}\n\n#[derive(Deserialize, Serialize)]")
SR2='''        for i in 0..self.details.len() {
            if let Some(ts) = restore.remove(&self.details[i].0) {
                let act_id = AccountId::new(self);
                let (_, id, old_ts) = &mut self.details[i];
                *id = act_id;
                *old_ts = ts;
            }
        }

'''
EDITS=[
ref("n-loop-fns",(N,NL,NL2),(N,"    pub fn notify_changes",NF),(N,NTAIL,RUN)),
ref("n-run-shared",(N,NE,NE2),(N,NTAIL,RUN)),
ref("n-all",(N,NL,NL2),(N,"    pub fn notify_changes",NF),(N,NE,NE2),(N,NTAIL,RUN)),
ref("v-run-fn",(V,VL,VL2),(V,"pub struct Eventer {",VF)),
ref("s-update-kept",(S,SU,SU2)),
ref("s-restore-by-index",(S,SR,SR2)),
ref("s-both",(S,SU,SU2),(S,SR,SR2)),
mut("n-due-ge","C29",(N,NL,NL2),(N,"    pub fn notify_changes",NF.replace(".is_some_and(|x| x <= now)",".map_or(true, |x| x <= now)")),(N,NTAIL,RUN)),
mut("n-not-marked","C29",(N,NL,NL2),(N,"    pub fn notify_changes",NF.replace("            if let Some(cmd) = ct_lk","            if !ct_lk.config().auth_notify_cmd.is_some() {\n                continue;\n            }\n            if let Some(cmd) = ct_lk")),(N,NTAIL,RUN)),
mut("n-same-thread","C29 C14 C16",(N,NL,NL2),(N,"    pub fn notify_changes",NF),(N,NTAIL,RUN.replace("    thread::spawn(move || {\n","    (move || {\n").replace("        }\n    });\n}","        }\n    })();\n}"))),
mut("v-no-reap","C16",(V,VL,VL2),(V,"pub struct Eventer {",VF.replace("            child.wait().ok();\n",""))),
mut("s-kept-name","C01",(S,SU,SU2.replace("Some(old_act) if new_act.secure_eq(old_act) =>","Some(_) =>"))),
mut("s-restore-no-id","C04",(S,SR,SR2.replace("                *id = act_id;\n","                let _ = (id, act_id);\n"))),
mut("s-restore-index-past","C28",(S,SR,SR2.replace("0..self.details.len()","0..=self.details.len()"))),
mut("s-restore-index-off","C28",(S,SR,SR2.replace("self.details[i].0)","self.details[i + 1].0)"))),
]
