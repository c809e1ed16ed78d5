From 08e029ed52fd3110afa0d71d485a2e5a13d41b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 01/18] fix: report an error when a dump cannot be restored

`restore` threw away the result of restoring the (decrypted) dump, so a dump of
an unknown version, or one that cannot be decoded, was reported as `ok`.
---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..9c0698b 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -136,8 +136,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From bfef58c6b18132e38457b3a493ed5aa2a5afb25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 02/18] fix: start the socket timestamp thread after
 daemonising

Threads do not survive `fork`, so when pizauth daemonised itself the thread that
keeps the socket's timestamp fresh disappeared.
---
 src/main.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..600f80a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -302,22 +302,6 @@ fn main() {
                 fs::remove_file(&sock_path).ok();
             }
 
-            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
-            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
-            //   are not removed, they should have their access time timestamp modified at least once every
-            //   6 hours of monotonic time
-            let sock_path_cl = sock_path.clone();
-            thread::spawn(move || loop {
-                thread::sleep(Duration::from_secs(6 * 60 * 60));
-                let _ = utimensat(
-                    None,
-                    &sock_path_cl,
-                    &TimeSpec::UTIME_NOW,
-                    &TimeSpec::UTIME_NOW,
-                    UtimensatFlags::NoFollowSymlink,
-                );
-            });
-
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
@@ -347,6 +331,23 @@ fn main() {
                     .init()
                     .unwrap();
             }
+
+            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
+            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
+            //   are not removed, they should have their access time timestamp modified at least once every
+            //   6 hours of monotonic time
+            let sock_path_cl = sock_path.clone();
+            thread::spawn(move || loop {
+                thread::sleep(Duration::from_secs(6 * 60 * 60));
+                let _ = utimensat(
+                    None,
+                    &sock_path_cl,
+                    &TimeSpec::UTIME_NOW,
+                    &TimeSpec::UTIME_NOW,
+                    UtimensatFlags::NoFollowSymlink,
+                );
+            });
+
             if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
                 error!("{e:}");
                 process::exit(1);
-- 
2.43.0


From f3deffb6827e8ffa0cdc07431bf747603135c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 03/18] fix: bound the size of individual lines in HTTP
 requests

The maximum request size was only checked after a whole line had been read, so
one endless line could use unbounded memory.
---
 src/server/http_server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..b142d53 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -280,7 +280,8 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    // Without `take`, a single (arbitrarily long) line could cause us to use unbounded memory.
+    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
-- 
2.43.0


From 04ff2e60eeb9095062ca8db7035d3b451c7a8c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 04/18] fix: release the global lock before replying to
 `status`

A client which doesn't read its reply could otherwise block the whole server.
---
 src/server/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..7a60e7c 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -288,6 +288,7 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
                 };
                 acts.push(format!("{}: {st}", act.name));
             }
+            drop(ct_lk);
             acts.sort();
             if acts.is_empty() {
                 stream.write_all(b"error:No accounts configured")?;
-- 
2.43.0


From b6d85b03446d7712c3d30238a37f009589f03336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 05/18] fix: raise token_invalidated when a token without a
 refresh token is dropped

---
 src/server/refresher.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..880e9d6 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,7 +71,11 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => (),
+                            RefreshKind::NoRefreshToken => {
+                                pstate
+                                    .eventer
+                                    .token_event(act_name, TokenEvent::Invalidated);
+                            }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
                                 pstate
-- 
2.43.0


From 9a96029aef1f0de702182f1cd5af00ef1d590a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 06/18] fix: only raise token_invalidated if a token was
 invalidated

If the account or its token changed while `transient_error_if_cmd` was running,
nothing is invalidated, so no event should be raised.
---
 src/server/refresher.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 880e9d6..fb41419 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -129,13 +129,15 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
+                                                            drop(ct_lk);
+                                                            info!("Permanent refresh error for {act_name} : {e}");
+                                                            pstate.eventer.token_event(
+                                                                act_name,
+                                                                TokenEvent::Invalidated,
+                                                            );
+                                                        } else {
+                                                            drop(ct_lk);
                                                         }
-                                                        drop(ct_lk);
-                                                        info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From c7c375dfda5b558b5c53bd4338958b915609a6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 07/18] fix: decide whether a redirect URI is HTTPS from the
 parsed URI

The check of redirect URIs against disabled listeners missed URIs such as
`HTTPS://localhost/` because it looked at the text the user wrote.
---
 src/config.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..0c81b1a 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -206,14 +206,14 @@ impl Config {
         }
 
         for (act_name, act) in &accounts {
-            if act.redirect_uri.starts_with("https") {
+            if act.redirect_uri_is_https() {
                 match https_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
                         return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                     }
                 }
-            } else if act.redirect_uri.starts_with("http") {
+            } else {
                 match http_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
@@ -544,6 +544,12 @@ impl Account {
             && self.token_uri == act_dump.token_uri
     }
 
+    /// Does this account's redirect URI use HTTPS? Note that URI schemes are case insensitive, so we
+    /// have to look at the parsed URI rather than at what the user wrote.
+    fn redirect_uri_is_https(&self) -> bool {
+        Url::parse(&self.redirect_uri).is_ok_and(|x| x.scheme() == "https")
+    }
+
     pub fn redirect_uri(
         &self,
         http_port: Option<u16>,
@@ -551,7 +557,7 @@ impl Account {
     ) -> Result<Url, Box<dyn Error>> {
         assert!(http_port.is_some() || https_port.is_some());
         let mut url = Url::parse(&self.redirect_uri)?;
-        if https_port.is_some() && self.redirect_uri.to_lowercase().starts_with("https") {
+        if https_port.is_some() && url.scheme() == "https" {
             url.set_port(https_port)
                 .map_err(|_| "Cannot set https port")?;
         } else {
-- 
2.43.0


From 5cd433fe93fb263d19e21521fa38d3e33aae7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 08/18] fix: don't panic if an empty list is a duplicate option

`scopes = ["a"]; scopes = [];` is a duplicate option, and should be reported as
one, but in debug builds it tripped an assertion.
---
 src/config.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 0c81b1a..88ad8c7 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -382,7 +382,6 @@ impl Account {
                 }
                 config_ast::AccountField::AuthUriFields(span, spans) => {
                     if auth_uri_fields.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
@@ -450,7 +449,6 @@ impl Account {
                 }
                 config_ast::AccountField::Scopes(span, spans) => {
                     if scopes.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
-- 
2.43.0


From d593a0c0f55cea9808f4e3c57fff5d6939bc7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 09/18] fix: reject duplicate account names

All but the last account with a given name were silently thrown away.
---
 src/config.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/config.rs b/src/config.rs
index 88ad8c7..b93234c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -84,6 +84,15 @@ impl Config {
                     match opt {
                         config_ast::TopLevel::Account(overall_span, name, fields) => {
                             let act_name = unescape_str(lexer.span_str(name));
+                            if accounts.contains_key(&act_name) {
+                                return Err(error_at_span(
+                                    &lexer,
+                                    name,
+                                    &format!(
+                                        "Mustn't specify account '{act_name:}' more than once"
+                                    ),
+                                ));
+                            }
                             accounts.insert(
                                 act_name.clone(),
                                 Arc::new(Account::from_fields(
-- 
2.43.0


From e9c83ada87f61551010d86d3f96651ab0cb9ab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 10/18] fix: fail authentication if a token's expiry can't be
 represented

The account was left pending with an authorisation code that had already been
used, and the user was not told.
---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index b142d53..c7a3fc9 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From 2a30c79f40e7d00f70a41e0dea3aa1684075877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 11/18] fix: don't let reminders discard an ongoing
 authentication

Reminding the user that an account is pending changed its AccountId. If that
happened while we were exchanging an authorisation code for a token, the token
was thrown away when it arrived.
---
 src/server/notifier.rs | 10 ++++------
 src/server/state.rs    | 26 ++++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..1e55b10 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -59,12 +59,11 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
-                    ref url,
+                    last_notification,
+                    url,
                     ..
-                } = ts
+                } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
                         if let Some(t) = t.checked_add(notify_interval) {
@@ -73,13 +72,12 @@ impl Notifier {
                             }
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    ct_lk.tokenstate_set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index 9c0698b..3792d10 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -379,6 +379,32 @@ impl<'a> CTGuard<'a> {
         unreachable!();
     }
 
+    /// If `act_id` is `Pending`, record that the user was last notified at `notified_at`. Since
+    /// this doesn't change the authentication request itself, `act_id` remains valid: we must not
+    /// cause a response to the authentication request that is currently being processed to be
+    /// thrown away.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid or is not `Pending`.
+    pub fn tokenstate_set_last_notification(&mut self, act_id: AccountId, notified_at: Instant) {
+        let i = self
+            .guard
+            .details
+            .iter()
+            .position(|x| x.1 == act_id)
+            .unwrap();
+        if let TokenState::Pending {
+            ref mut last_notification,
+            ..
+        } = self.guard.details[i].2
+        {
+            *last_notification = Some(notified_at);
+            return;
+        }
+        unreachable!();
+    }
+
     /// Update the tokenstate for `act_id` to `new_tokenstate` returning a new [AccountId]
     /// valid for the new tokenstate, updating the tokenstate version.
     ///
-- 
2.43.0


From 9f2195de8e00cdd34214e3a6eb79f1eddcce38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 12/18] fix: exit with an error if `dump` fails

If the server couldn't create a dump, or the dump couldn't be written to stdout,
`pizauth dump` exited successfully.
---
 src/main.rs        | 5 ++++-
 src/user_sender.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 600f80a..0992960 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,10 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    if let Err(e) = stdout().write_all(&d) {
+                        error!("{e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..a4f8d11 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,10 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    if buf.is_empty() {
+        // If the server can't create a dump, it closes the connection.
+        return Err("pizauth authenticator failed to create a dump".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From b5c5a33ca9169421971239e80de12231dc27ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 13/18] fix: raise token_invalidated if reloading discards an
 active token

---
 src/server/state.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index 3792d10..b83780d 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -28,7 +28,11 @@ use rand::{rng, Rng};
 use serde::{Deserialize, Serialize};
 use url::Url;
 
-use super::{eventer::Eventer, notifier::Notifier, refresher::Refresher};
+use super::{
+    eventer::{Eventer, TokenEvent},
+    notifier::Notifier,
+    refresher::Refresher,
+};
 use crate::config::{Account, AccountDump, Config};
 
 /// We lightly encrypt the dump output to make it at least resistant to simple string-based
@@ -95,9 +99,12 @@ impl AuthenticatorState {
     /// guarantee that by the time this function calls the configuration is still the same as
     /// `new_conf` since another thread(s) may also have called this function.
     pub fn update_conf(&self, new_conf: Config) {
-        {
+        let invalidated = {
             let mut lk = self.locked_state.lock().unwrap();
-            lk.update_conf(new_conf);
+            lk.update_conf(new_conf)
+        };
+        for act_name in invalidated {
+            self.eventer.token_event(act_name, TokenEvent::Invalidated);
         }
         self.notifier.notify_changes();
         self.refresher.notify_changes();
@@ -171,7 +178,9 @@ impl LockedState {
         }
     }
 
-    fn update_conf(&mut self, config: Config) {
+    /// Update the configuration to `config`, returning the names of those accounts whose active
+    /// token has had to be thrown away.
+    fn update_conf(&mut self, config: Config) -> Vec<String> {
         let mut details = Vec::with_capacity(config.accounts.len());
 
         for act_name in config.accounts.keys() {
@@ -201,8 +210,16 @@ impl LockedState {
             }
         }
 
+        let invalidated = self
+            .details
+            .iter()
+            .filter(|x| matches!(x.2, TokenState::Active { .. }))
+            .filter(|x| !details.iter().any(|y| y.1 == x.1))
+            .map(|x| x.0.clone())
+            .collect();
         self.config = config;
         self.details = details;
+        invalidated
     }
 
     fn dump(&self) -> Result<Vec<u8>, Box<dyn Error>> {
-- 
2.43.0


From 4411ebc72e14231aa3a7742f2ca054b2e41b293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:19 +0000
Subject: [PATCH 14/18] fix: document the actual timeout of token_event_cmd

---
 pizauth.conf.5 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pizauth.conf.5 b/pizauth.conf.5
index 9df9dd6..1279b0f 100644
--- a/pizauth.conf.5
+++ b/pizauth.conf.5
@@ -110,7 +110,7 @@ that an event reflects the current state of an account's access token,
 since further events may be stored in the queue.
 Note that
 .Sy token_event_cmd
-is subject to a 10 second timeout.
+is subject to a 30 second timeout.
 Optional.
 .El
 .Pp
-- 
2.43.0


From 10c1d58c1e90902f34992fbc92c192809ca5322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 15/18] fix: report failure to write the end of a dump to
 stdout

Stdout is line buffered: whatever follows the last newline of a dump was only
written at exit, where errors are ignored.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0992960..da818a7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,7 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    if let Err(e) = stdout().write_all(&d) {
+                    if let Err(e) = stdout().write_all(&d).and_then(|()| stdout().flush()) {
                         error!("{e:}");
                         process::exit(1);
                     }
-- 
2.43.0


From cc01ff80644852bdac951a3aaa8d7055f1a675da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:51 +0000
Subject: [PATCH 16/18] fix: don't panic when formatting times that cannot be
 represented as dates

An OAuth server's 'expires_in' can be large enough (e.g. 10^12 seconds) that
the expiry date has more than 4 digits, on which to_rfc2822 panics. Since that
happened in the main thread, 'pizauth status' then brought the server down.
---
 src/server/mod.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 7a60e7c..083afd4 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -16,7 +16,7 @@ use std::{
 };
 
 use boot_time::Instant;
-use chrono::{DateTime, Local};
+use chrono::{DateTime, Datelike, Local};
 use log::warn;
 use nix::sys::signal::{raise, Signal};
 #[cfg(target_os = "openbsd")]
@@ -302,21 +302,31 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
     Err("Invalid command".into())
 }
 
+/// Print a [SystemTime] as a user-readable string, or return `None` if it cannot be represented:
+/// converting an arbitrary [SystemTime] to a [DateTime] can panic, as can
+/// [DateTime::to_rfc2822] for years which do not have 4 digits.
+fn systemtime_fmt(st: SystemTime) -> Option<String> {
+    let secs = st.duration_since(SystemTime::UNIX_EPOCH).ok()?.as_secs();
+    let dt = DateTime::from_timestamp(i64::try_from(secs).ok()?, 0)?.with_timezone(&Local);
+    if dt.year() > 9999 {
+        return None;
+    }
+    Some(dt.to_rfc2822())
+}
+
 /// Attempt to print an [Instant] as a user-readable string. By the very nature of [Instant]s,
 /// there is no guarantee this is possible or that the time presented is accurate.
 fn instant_fmt(i: Instant) -> String {
     let now = Instant::now();
     if i < now {
         if let Some(d) = now.checked_duration_since(i) {
-            if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
+            if let Some(s) = SystemTime::now().checked_sub(d).and_then(systemtime_fmt) {
+                return s;
             }
         }
     } else if let Some(d) = i.checked_duration_since(now) {
-        if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
+        if let Some(s) = SystemTime::now().checked_add(d).and_then(systemtime_fmt) {
+            return s;
         }
     }
     "<unknown time>".into()
-- 
2.43.0


From 29569dc05a6108e3aa146fa9a1534e7cfee579f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:39 +0000
Subject: [PATCH 17/18] fix: don't remind again when the next reminder can
 never be due

---
 src/server/notifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 1e55b10..81febc7 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -70,6 +70,10 @@ impl Notifier {
                             if t > now {
                                 continue;
                             }
+                        } else {
+                            // `t + notify_interval` exceeds Instant's bounds, so the next
+                            // notification will never be due.
+                            continue;
                         }
                     }
                     let url = url.clone();
-- 
2.43.0


From 2e88652ca73e5b0d4e654a0263a089e376d58d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:39 +0000
Subject: [PATCH 18/18] fix: don't retry a refresh continually when the next
 attempt can never be due

---
 src/server/refresher.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index fb41419..15222f4 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -403,6 +403,9 @@ impl Refresher {
                     if let Some(t) = lra.checked_add(act.refresh_retry(ct_lk.config())) {
                         return Some(t.to_owned());
                     }
+                    // `lra + refresh_retry` exceeds Instant's bounds, so the next attempt will
+                    // never be due.
+                    return None;
                 }
 
                 let mut expiry = access_token_expiry
-- 
2.43.0

