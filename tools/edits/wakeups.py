N = "src/server/notifier.rs"
V = "src/server/eventer.rs"
H = "src/server/http_server.rs"
R = "src/server/refresher.rs"
S = "src/server/state.rs"
M = "src/server/mod.rs"
T = "src/server/request_token.rs"
CL = """            *refresh_lk = false;
            drop(refresh_lk);
"""
EDITS = [
 dict(name="w-clear-first", kind="mut", ids=["C14"], edits=[(R, "            while !*refresh_lk {", "            *refresh_lk = false;\n            while !*refresh_lk {")]),
 dict(name="w-clear-first-notifier", kind="mut", ids=["C14"], edits=[(N, "            while !*notify_lk {", "            *notify_lk = false;\n            while !*notify_lk {")]),
 dict(name="w-clear-after-drain", kind="mut", ids=["C14"], edits=[(V, "            *eventer_lk = false;\n            drop(eventer_lk);\n", "            drop(eventer_lk);\n"), (V, "                    Err(e) => error!(\"{e:}\"),\n                }\n            }\n", "                    Err(e) => error!(\"{e:}\"),\n                }\n            }\n            *self.pred.lock().unwrap() = false;\n")]),
 dict(name="w-pop-one", kind="mut", ids=["C14"], edits=[(V, "                    Err(e) => error!(\"{e:}\"),\n                }\n            }\n        });", "                    Err(e) => error!(\"{e:}\"),\n                }\n                break;\n            }\n        });")]),
 dict(name="w-event-wake-first", kind="mut", ids=["C14"], edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n        let mut event_lk = self.pred.lock().unwrap();\n        *event_lk = true;\n        self.condvar.notify_one();", "        {\n            let mut event_lk = self.pred.lock().unwrap();\n            *event_lk = true;\n            self.condvar.notify_one();\n        }\n        self.event_queue.lock().unwrap().push_back((act_name, kind));")]),
 dict(name="w-event-only-if-empty", kind="mut", ids=["C14"], edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n", "        let mut q = self.event_queue.lock().unwrap();\n        q.push_back((act_name, kind));\n        if q.len() > 1 { return; }\n        drop(q);\n")]),
 dict(name="w-no-record", kind="mut", ids=["C14"], edits=[(R, "        *refresh_lk = true;\n        self.condvar.notify_one();", "        if !*refresh_lk { self.condvar.notify_one(); }")]),
 dict(name="w-notify-before", kind="mut", ids=["C14"], edits=[(R, "        let mut refresh_lk = self.pred.lock().unwrap();\n        *refresh_lk = true;\n        self.condvar.notify_one();", "        self.condvar.notify_one();\n        let mut refresh_lk = self.pred.lock().unwrap();\n        *refresh_lk = true;")]),
 dict(name="w-wait-unchecked", kind="mut", ids=["C14"], edits=[(V, "            while !*eventer_lk {\n                eventer_lk = self.condvar.wait(eventer_lk).unwrap();\n            }", "            eventer_lk = self.condvar.wait(eventer_lk).unwrap();\n            while !*eventer_lk {\n                eventer_lk = self.condvar.wait(eventer_lk).unwrap();\n            }")]),
 dict(name="w-wait-relock", kind="mut", ids=["C14"], edits=[(V, "            while !*eventer_lk {\n                eventer_lk = self.condvar.wait(eventer_lk).unwrap();\n            }", "            while !*eventer_lk {\n                drop(eventer_lk);\n                eventer_lk = self.pred.lock().unwrap();\n                eventer_lk = self.condvar.wait(eventer_lk).unwrap();\n            }")]),
 dict(name="w-refreshed-no-notify", kind="mut", ids=["C14"], edits=[(R, "                                refresher.notify_changes();\n                                pstate.eventer.token_event(act_name, TokenEvent::Refresh);", "                                pstate.eventer.token_event(act_name, TokenEvent::Refresh);")]),
 dict(name="w-transient-no-notify", kind="mut", ids=["C14"], edits=[(R, "                                // it should next wake up.\n                                refresher.notify_changes();", "                                // it should next wake up."), (R, "                                // If the main refresher thread noticed we were running it\n                                // might have given up, so give it a chance to recalculate when\n                                // it should next wake up.\n                                refresher.notify_changes();", "")] ),
 dict(name="w-transient-notify-in-branch", kind="mut", ids=["C14"], edits=[(R, "                                // If the main refresher thread noticed we were running it\n                                // might have given up, so give it a chance to recalculate when\n                                // it should next wake up.\n                                refresher.notify_changes();", ""), (R, "                                            ct_lk.tokenstate_set_ongoing_refresh(act_id, false);\n                                            drop(ct_lk);\n                                            info!(\n                                                \"Transitory", "                                            ct_lk.tokenstate_set_ongoing_refresh(act_id, false);\n                                            drop(ct_lk);\n                                            refresher.notify_changes();\n                                            info!(\n                                                \"Transitory")]),
 dict(name="w-http-no-notify", kind="mut", ids=["C14"], edits=[(H, "            pstate.refresher.notify_changes();\n", "")]),
 dict(name="w-http-notify-before", kind="mut", ids=["C14"], edits=[(H, "            pstate.refresher.notify_changes();\n", ""), (H, "    let mut ct_lk = pstate.ct_lock();\n    if !ct_lk.is_act_id_valid(act_id) {", "    pstate.refresher.notify_changes();\n    let mut ct_lk = pstate.ct_lock();\n    if !ct_lk.is_act_id_valid(act_id) {")]),
 dict(name="w-http-wrong-thread", kind="mut", ids=["C14"], edits=[(H, "            pstate.refresher.notify_changes();\n", "            pstate.notifier.notify_changes();\n")]),
 dict(name="w-restore-no-refresher", kind="mut", ids=["C14"], edits=[(S, "        self.locked_state.lock().unwrap().restore(d)?;\n        self.notifier.notify_changes();\n        self.refresher.notify_changes();", "        self.locked_state.lock().unwrap().restore(d)?;\n        self.notifier.notify_changes();")]),
 dict(name="w-reload-no-notifier", kind="mut", ids=["C14"], edits=[(S, "        }\n        self.notifier.notify_changes();\n        self.refresher.notify_changes();\n    }", "        }\n        self.refresher.notify_changes();\n    }")]),
 dict(name="w-ref-request-notify-under-lock", kind="ref", edits=[(T, "    drop(ct_lk);\n    pstate.notifier.notify_changes();\n", "    drop(ct_lk);\n"), (T, "    ct_lk.tokenstate_replace(", "    let notifier = pstate.notifier.clone();\n    notifier.notify_changes();\n    ct_lk.tokenstate_replace(")]),
 dict(name="w-ref-while", kind="ref", edits=[(V, "            let mut eventer_lk = self.pred.lock().unwrap();\n            while !*eventer_lk {\n                eventer_lk = self.condvar.wait(eventer_lk).unwrap();\n            }", "            let mut eventer_lk = self.condvar.wait_while(self.pred.lock().unwrap(), |x| !*x).unwrap();")]),
 dict(name="w-ref-drop-notify", kind="ref", edits=[(R, "        *refresh_lk = true;\n        self.condvar.notify_one();", "        *refresh_lk = true;\n        drop(refresh_lk);\n        self.condvar.notify_all();")]),
 dict(name="w-ref-oneliner", kind="ref", edits=[(N, "        let mut notify_lk = self.pred.lock().unwrap();\n        *notify_lk = true;\n        self.condvar.notify_one();", "        *self.pred.lock().unwrap() = true;\n        self.condvar.notify_one();")]),
 dict(name="w-ref-queue-under-pred", kind="ref", edits=[(V, "        self.event_queue.lock().unwrap().push_back((act_name, kind));\n        let mut event_lk = self.pred.lock().unwrap();", "        let mut event_lk = self.pred.lock().unwrap();\n        self.event_queue.lock().unwrap().push_back((act_name, kind));")]),
 dict(name="w-ref-whilelet", kind="ref", edits=[(V, "                let (act_name, event) =\n                    if let Some((act_name, event)) = self.event_queue.lock().unwrap().pop_front() {\n                        (act_name, event)\n                    } else {\n                        break;\n                    };", "                let next = self.event_queue.lock().unwrap().pop_front();\n                let Some((act_name, event)) = next else {\n                    break;\n                };")]),
 dict(name="w-ref-both", kind="ref", edits=[(S, "        self.locked_state.lock().unwrap().restore(d)?;\n        self.notifier.notify_changes();\n        self.refresher.notify_changes();\n", "        self.locked_state.lock().unwrap().restore(d)?;\n        self.wake();\n"), (S, "    pub fn dump(&self) -> Result<Vec<u8>, Box<dyn Error>> {\n        let lk", "    fn wake(&self) {\n        self.refresher.notify_changes();\n        self.notifier.notify_changes();\n    }\n\n    pub fn dump(&self) -> Result<Vec<u8>, Box<dyn Error>> {\n        let lk")]),
]
EDITS = [e for e in EDITS if e["name"] != "w-transient-no-notify"] + [
 dict(name="w-transient-no-notify", kind="mut", ids=["C14"], edits=[(R, "                                // it should next wake up.\n                                refresher.notify_changes();", "                                // it should next wake up.")])]
