From 297df17d1a9df5e6c53c71071267f5132991a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:31 +0000
Subject: [PATCH 01/29] fix: a store TTL too large for the clock panics the
 request; treat it as never expiring

---
 src/brokers/store/domain/map.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..b79ddc8 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -55,12 +55,12 @@ impl MapStore {
     }
 
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
-        let expires_at = match ttl {
-            Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
-            }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+        let ttl_secs = match ttl {
+            Some(0) | None => self.config.default_ttl_secs,
+            Some(secs) => secs,
         };
+        // A TTL beyond what the clock can represent never expires
+        let expires_at = Instant::now().checked_add(Duration::from_secs(ttl_secs));
 
         self.inner.insert(key, Entry {
             value: MapValue(value),
-- 
2.43.0


From b9fe0e726e2e9489b3544025cc6c07e6deec3707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 02/29] fix: a retained TTL too large for the clock panics the
 publish or the next start; treat it as never expiring

---
 src/brokers/pub-sub/domain/retained.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..b81ea56 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -14,12 +14,14 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
-        let expires_at_unix = ttl_seconds.map(|secs| {
+        // A TTL beyond what the clock can represent never expires
+        let expires_at = ttl_seconds.and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));
+        let expires_at_unix = ttl_seconds.and_then(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .checked_add(secs)
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +35,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
                 None
             }
-- 
2.43.0


From 87f0c2baec4513eef5f2be3dfbf025fdabeb660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:55 +0000
Subject: [PATCH 03/29] fix: a retained value whose TTL ran out while the
 server was down came back without any expiry

---
 src/brokers/pub-sub/domain/retained.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index b81ea56..e766f3b 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -37,7 +37,8 @@ impl RetainedMessage {
                 let remaining = unix_ts - now_unix;
                 Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
-                None
+                // Expired while the server was down
+                Some(Instant::now())
             }
         });
         Self { data, expires_at, expires_at_unix }
-- 
2.43.0


From 524142ed713498d388d6447ba7653838e4b57d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:07 +0000
Subject: [PATCH 04/29] fix: retained values and listings of topics with an
 empty first segment lost or moved to another topic

---
 src/brokers/pub-sub/domain/radix_tree.rs | 52 ++++++++++++++----------
 src/brokers/pub-sub/manager.rs           |  7 ++--
 2 files changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..4dc30ee 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -7,6 +7,14 @@ use crate::brokers::pub_sub::snapshot::TopicSnapshot;
 use super::retained::RetainedMessage;
 use super::types::ClientId;
 
+/// Appends a segment to a path. `None` is the root: the first segment may be empty ("/a" is ["", "a"]).
+fn join_path(path: Option<&str>, segment: &str) -> String {
+    match path {
+        Some(path) => format!("{}/{}", path, segment),
+        None => segment.to_string(),
+    }
+}
+
 pub(crate) struct Node {
     // Exact match children: "kitchen" -> Node
     pub(crate) children: HashMap<String, Node>,
@@ -141,11 +149,11 @@ impl Node {
         current.retained = retained;
     }
 
-    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
                 }
             }
             return;
@@ -156,40 +164,40 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, key);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, head);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         }
     }
 
-    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained_for_subscribe(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained_for_subscribe(Some(&next_path), results);
         }
     }
 
-    pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
+    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained(Some(&next_path), results);
         }
     }
 
@@ -224,8 +232,8 @@ impl Node {
         cleaned
     }
 
-    pub(crate) fn collect_filtered_topics(&self, base_path: &str, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
-        if !base_path.is_empty() {
+    pub(crate) fn collect_filtered_topics(&self, base_path: Option<&str>, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
+        if let Some(base_path) = base_path {
             let matches = search.map_or(true, |s| base_path.contains(s));
             if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
                 topics.push(TopicSnapshot {
@@ -239,18 +247,18 @@ impl Node {
         }
 
         for (child_name, child_node) in &self.children {
-            let full_path = if base_path.is_empty() { child_name.clone() } else { format!("{}/{}", base_path, child_name) };
-            child_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, child_name);
+            child_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(plus_node) = &self.plus_child {
-            let full_path = if base_path.is_empty() { "+".to_string() } else { format!("{}/+", base_path) };
-            plus_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "+");
+            plus_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(hash_node) = &self.hash_child {
-            let full_path = if base_path.is_empty() { "#".to_string() } else { format!("{}/#", base_path) };
-            hash_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "#");
+            hash_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
     }
 }
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..a5d609c 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -62,7 +62,7 @@ impl PubSubManager {
                     let entries = {
                         let root = flush_tree.read();
                         let mut results = Vec::new();
-                        root.collect_all_retained("", &mut results);
+                        root.collect_all_retained(None, &mut results);
                         results
                     };
 
@@ -132,10 +132,9 @@ impl PubSubManager {
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
-        root.collect_retained_for_pattern(&parts, "", &mut retained);
+        root.collect_retained_for_pattern(&parts, None, &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = sender.send(msg);
         }
@@ -201,7 +200,7 @@ impl PubSubManager {
         let mut all_topics = Vec::new();
         {
             let root = self.tree.read();
-            root.collect_filtered_topics("", search, &mut all_topics);
+            root.collect_filtered_topics(None, search, &mut all_topics);
         }
 
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
-- 
2.43.0


From e1f65455bf7b8dc4faa10b46976ef79193903d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 05/29] fix: a consume with a huge batch size aborted the
 server (allocation of the requested size up front)

---
 src/brokers/queue/domain/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 02284ef..3c98d25 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -139,7 +139,7 @@ impl QueueState {
 
     /// Take up to `max` messages for batch consumption.
     pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
-        let mut result = Vec::with_capacity(max);
+        let mut result = Vec::new();
         let mut any_earliest = false;
 
         while result.len() < max {
-- 
2.43.0


From bbd22f4d69dc8ced90503407e78d72b0ca99d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 06/29] fix: a visibility timeout too large for the clock
 panics every consume and loses the message; treat it as never timing out

---
 src/brokers/queue/domain/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 3c98d25..0544203 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -392,7 +392,7 @@ impl QueueState {
             None => return (None, false),
         };
 
-        let timeout = now + visibility_timeout_ms;
+        let timeout = now.saturating_add(visibility_timeout_ms);
         self.transition_to(next_id, MessageState::InFlight(timeout));
 
         // Update message fields
-- 
2.43.0


From 13962ae3b6b855b0d11aa634f3187982d7bb7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:47 +0000
Subject: [PATCH 07/29] fix: a last delivery that timed out while the server
 was down was delivered again instead of dead-lettered

---
 src/brokers/queue/domain/persistence.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..a6053de 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -7,7 +7,7 @@ use rusqlite::{params, types::Type, Connection, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
-use crate::brokers::queue::domain::queue::{Message, MessageState, current_time_ms};
+use crate::brokers::queue::domain::queue::{Message, MessageState};
 use crate::brokers::queue::domain::dlq::DlqMessage;
 
 // ==========================================
@@ -286,10 +286,9 @@ fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
         let attempts: u32 = row.get(4)?;
         let created_at = row.get::<_, i64>(5)? as u64;
  
-         let now = current_time_ms();
-         
-         // Reconstruct State
-         let state = if visible_at > now && attempts > 0 {
+         // Reconstruct State. A delivery whose visibility ran out while the server was down
+         // stays in flight here: the timeout task decides whether it is retried or dead-lettered.
+         let state = if visible_at > 0 && attempts > 0 {
              MessageState::InFlight(visible_at)
          } else {
              MessageState::Ready
-- 
2.43.0


From 3a5287f041647b98602d9be6e7e00896a169df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:19 +0000
Subject: [PATCH 08/29] fix: a stream whose data directory was moved kept using
 the old path and lost its log

---
 src/brokers/stream/manager.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..78bfbee 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -434,11 +434,14 @@ impl StreamManager {
 
     async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
         let config_path = base_path.join("config.json");
-        if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
+        let mut topic_config = if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
             serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
         } else {
             TopicConfig::from_options(options, config)
-        }
+        };
+        // The topic lives where it was found, not where it was first created.
+        topic_config.persistence_path = config.persistence_path.clone();
+        topic_config
     }
 
     async fn bootstrap_from_disk(&self) {
-- 
2.43.0


From 0495a6831e327da1b953e3afc1868dc4cff73475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:35 +0000
Subject: [PATCH 09/29] fix: a client dropped during a disk read of its group
 left the group unable to read from disk ever again

---
 src/brokers/stream/manager.rs | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 78bfbee..46288bc 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -39,6 +39,24 @@ struct TopicInner {
     full_config: TopicConfig,
 }
 
+/// Marks a disk read of a group as over, also when the fetching client went away in the middle of it.
+struct ColdFetchGuard<'a> {
+    topic_ref: &'a Arc<TopicShared>,
+    group: &'a str,
+    armed: bool,
+}
+
+impl Drop for ColdFetchGuard<'_> {
+    fn drop(&mut self) {
+        if self.armed {
+            let mut inner = StreamManager::lock_topic(&self.topic_ref.inner);
+            if let Some(group_ref) = inner.groups.get_mut(self.group) {
+                group_ref.is_fetching_cold = false;
+            }
+        }
+    }
+}
+
 enum FetchAttempt {
     Ready(Vec<Message>),
     NeedColdRead { from_seq: u64 },
@@ -722,6 +740,7 @@ impl StreamManager {
     }
 
     async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
+        let mut guard = ColdFetchGuard { topic_ref, group, armed: true };
         let (tx, rx) = oneshot::channel();
         if self.storage_tx.send(StorageCommand::ColdRead {
             topic_name: topic.to_string(),
@@ -729,24 +748,15 @@ impl StreamManager {
             limit,
             reply: tx,
         }).is_err() {
-            let mut inner = Self::lock_topic(&topic_ref.inner);
-            if let Some(group_ref) = inner.groups.get_mut(group) {
-                group_ref.is_fetching_cold = false;
-            }
             return Err("Disk read failed".to_string());
         }
 
         let messages = match rx.await {
             Ok(messages) => messages,
-            Err(_) => {
-                let mut inner = Self::lock_topic(&topic_ref.inner);
-                if let Some(group_ref) = inner.groups.get_mut(group) {
-                    group_ref.is_fetching_cold = false;
-                }
-                return Err("Disk read failed".to_string());
-            }
+            Err(_) => return Err("Disk read failed".to_string()),
         };
 
+        guard.armed = false;
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
         if let Some(group_ref) = inner.groups.get_mut(group) {
-- 
2.43.0


From 53a436046a902d9d176fb0f25593ef390ab9c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:50 +0000
Subject: [PATCH 10/29] fix: a queue whose name ends in .db came back under a
 shortened name after a restart

---
 src/brokers/queue/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..14c6c3b 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -74,7 +74,7 @@ impl QueueManager {
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                             if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                                let queue_name = filename.strip_suffix(".db").unwrap_or(filename).to_string();
 
                                 let config_path = persistence_path.join(format!("{}.config.json", queue_name));
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-- 
2.43.0


From 98d6025f3bec1fe781db16dd2d8c96855b42aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:33 +0000
Subject: [PATCH 11/29] fix: after a stop in the middle of a write, messages
 published later to the stream were lost or got used sequence numbers

---
 src/brokers/stream/domain/persistence.rs | 33 ++++++++++++++++++++----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..af02d9d 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -451,8 +451,13 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
 
     if let Ok(segments) = find_segments(&base_path).await {
         state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
-        if let Some(last_segment) = segments.last() {
-            state.messages = load_segment_file(&last_segment.path).await;
+        // The newest segment may hold no complete message yet (stopped right after it was opened):
+        // the log then ends in an older one.
+        for segment in segments.iter().rev() {
+            let (messages, valid_len) = load_segment_file(&segment.path).await;
+            truncate_segment(&segment.path, valid_len).await;
+            state.messages = messages;
+            if !state.messages.is_empty() { break; }
         }
         state.segments = segments;
     }
@@ -528,12 +533,29 @@ async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer
     Ok(())
 }
 
-async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
+/// Cut off what a stop in the middle of a write left behind: messages appended after it could not be read.
+async fn truncate_segment(path: &Path, valid_len: u64) {
+    match tokio::fs::metadata(path).await {
+        Ok(meta) if meta.len() > valid_len => {}
+        _ => return,
+    }
+    let result = match OpenOptions::new().write(true).open(path).await {
+        Ok(file) => file.set_len(valid_len).await,
+        Err(e) => Err(e),
+    };
+    if let Err(e) = result {
+        error!("Failed to truncate segment {:?} to {} bytes: {}", path, valid_len, e);
+    }
+}
+
+/// Load the complete messages of a segment, and the length of the file they take up.
+async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, u64) {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
+    let mut valid_len = 0;
     let file = match File::open(path).await {
         Ok(f) => f,
-        Err(_) => return msgs,
+        Err(_) => return (msgs, u64::MAX),
     };
 
     let mut reader = BufReader::new(file);
@@ -562,8 +584,9 @@ async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
         let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));
 
         msgs.push_back(Message { seq, timestamp, payload });
+        valid_len += 8 + len as u64;
     }
-    msgs
+    (msgs, valid_len)
 }
 
 async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
-- 
2.43.0


From 719fb1a2f352e92698ed830a458af0978c76cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 12/29] fix: after a crash a group could resume beyond the end
 of its log and skip the next messages

---
 src/brokers/stream/manager.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 46288bc..ad6e948 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -514,7 +514,12 @@ impl StreamManager {
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
         let mut groups = HashMap::new();
-        for (group_id, ack_floor) in recovered.groups_data {
+        let mut groups_dirty = false;
+        let last_seq = state.next_seq.saturating_sub(1);
+        for (group_id, saved_floor) in recovered.groups_data {
+            // Acks can have been saved for messages that were not: their sequence numbers will be used again.
+            let ack_floor = saved_floor.min(last_seq);
+            groups_dirty |= ack_floor != saved_floor;
             groups.insert(
                 group_id.clone(),
                 ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
@@ -526,7 +531,7 @@ impl StreamManager {
                 state,
                 groups,
                 client_map: HashMap::new(),
-                groups_dirty: false,
+                groups_dirty,
                 full_config: config,
             }),
             notify: Notify::new(),
-- 
2.43.0


From 3888e55202e2cbb38412c667464c24c3f3784e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 13/29] fix: change pub/sub client registry and topic tree
 together, so racing requests leave no leaked subscriber

---
 src/brokers/pub-sub/manager.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index a5d609c..ae1a39c 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -120,6 +120,11 @@ impl PubSubManager {
     }
 
     pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
+        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
+        // Taken first: the client's pattern list and the tree change together, so a
+        // parallel unsubscribe or disconnect of the same client sees both or neither.
+        let mut root = self.tree.write();
+
         let sender = if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.insert(pattern.to_string());
             info.sender.clone()
@@ -127,8 +132,6 @@ impl PubSubManager {
             return;
         };
 
-        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-        let mut root = self.tree.write();
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
@@ -141,11 +144,11 @@ impl PubSubManager {
     }
 
     pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
+        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
+        let mut root = self.tree.write();
         if let Some(mut info) = self.clients.get_mut(client_id) {
             info.subscriptions.remove(pattern);
         }
-        let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-        let mut root = self.tree.write();
         root.remove_subscriber(&parts, client_id);
     }
 
-- 
2.43.0


From 3bdec00b485bbee05d433db4162aebfe8b0b5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 14/29] fix: hand queue changes to the store in the order they
 happen, so a restart finds the same queue

---
 src/brokers/queue/manager.rs | 128 ++++++++++++++++-------------------
 1 file changed, 58 insertions(+), 70 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 14c6c3b..797a0c6 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -25,6 +25,8 @@ use crate::brokers::queue::snapshot::{QueueMessagePreview, QueueSnapshot};
 // ==========================================
 
 struct QueueShared {
+    /// Storage operations are sent while this is held, so the writer applies them
+    /// in the order in which the state changed.
     inner: Mutex<QueueInner>,
     notify: Notify,
     store: QueueStore,
@@ -165,7 +167,7 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    let any_requeued = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -181,29 +183,25 @@ impl QueueManager {
                             inner.dlq.push((*dlq_msg).clone());
                         }
 
-                        (requeued, dlq_msgs)
-                    };
-
-                    if requeued.is_empty() && dlq_msgs.is_empty() {
-                        continue;
-                    }
+                        for msg in &requeued {
+                            shared.store.execute(StorageOp::UpdateState {
+                                id: msg.id,
+                                visible_at: 0,
+                                attempts: msg.attempts,
+                            });
+                        }
 
-                    for msg in &requeued {
-                        shared.store.execute(StorageOp::UpdateState {
-                            id: msg.id,
-                            visible_at: 0,
-                            attempts: msg.attempts,
-                        });
-                    }
+                        for dlq_msg in dlq_msgs {
+                            shared.store.execute(StorageOp::MoveToDLQ {
+                                id: dlq_msg.id,
+                                msg: dlq_msg,
+                            });
+                        }
 
-                    for dlq_msg in dlq_msgs {
-                        shared.store.execute(StorageOp::MoveToDLQ {
-                            id: dlq_msg.id,
-                            msg: dlq_msg,
-                        });
-                    }
+                        !requeued.is_empty()
+                    };
 
-                    if !requeued.is_empty() {
+                    if any_requeued {
                         shared.notify.notify_waiters();
                     }
                 }
@@ -285,9 +283,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -299,17 +297,13 @@ impl QueueManager {
         let (msg_opt, _) = {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
+            let popped = inner.state.pop(vt);
+            if let Some(msg) = &popped.0 {
+                self.persist_batch_state(&shared, std::slice::from_ref(msg));
+            }
+            popped
         };
 
-        if let Some(msg) = &msg_opt {
-            shared.store.execute(StorageOp::UpdateState {
-                id: msg.id,
-                visible_at: msg.visible_at,
-                attempts: msg.attempts,
-            });
-        }
-
         msg_opt
     }
 
@@ -321,13 +315,13 @@ impl QueueManager {
 
         let result = {
             let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
+            let acked = inner.state.ack(id);
+            if acked {
+                shared.store.execute(StorageOp::Delete(id));
+            }
+            acked
         };
 
-        if result {
-            shared.store.execute(StorageOp::Delete(id));
-        }
-
         result
     }
 
@@ -337,37 +331,31 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
+        let (requeued, dead_lettered) = {
             let mut inner = Self::lock(&shared.inner);
             let max_retries = inner.config.max_retries;
             let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
 
+            if let Some(ref msg) = requeued {
+                self.persist_batch_state(&shared, std::slice::from_ref(msg));
+            }
+
             if let Some(ref dlq_message) = dlq_msg {
                 inner.dlq.push(dlq_message.clone());
+                shared.store.execute(StorageOp::MoveToDLQ {
+                    id: dlq_message.id,
+                    msg: dlq_message.clone(),
+                });
             }
 
-            (requeued, dlq_msg)
+            (requeued.is_some(), dlq_msg.is_some())
         };
 
-        if let Some(msg) = requeued {
-            shared.store.execute(StorageOp::UpdateState {
-                id: msg.id,
-                visible_at: msg.visible_at,
-                attempts: msg.attempts,
-            });
+        if requeued {
             shared.notify.notify_waiters();
-            return true;
-        }
-
-        if let Some(dlq_message) = dlq_msg {
-            shared.store.execute(StorageOp::MoveToDLQ {
-                id: dlq_message.id,
-                msg: dlq_message,
-            });
-            return true;
         }
 
-        false
+        requeued || dead_lettered
     }
 
     pub async fn consume_batch(&self, queue_name: String, max: Option<usize>, wait_ms: Option<u64>) -> Result<Vec<Message>, String> {
@@ -382,10 +370,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +393,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,22 +456,22 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let new_msg = {
+        let moved = {
             let mut inner = Self::lock(&shared.inner);
             if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
                 let new_msg = dlq_msg.clone().to_message();
                 inner.state.push(new_msg.clone());
-                Some(new_msg)
+                shared.store.execute(StorageOp::MoveToMain {
+                    id: message_id,
+                    msg: new_msg,
+                });
+                true
             } else {
-                None
+                false
             }
         };
 
-        if let Some(msg) = new_msg {
-            shared.store.execute(StorageOp::MoveToMain {
-                id: message_id,
-                msg,
-            });
+        if moved {
             shared.notify.notify_waiters();
             Ok(true)
         } else {
@@ -498,13 +486,13 @@ impl QueueManager {
 
         let removed = {
             let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
+            let removed = inner.dlq.remove(&message_id).is_some();
+            if removed {
+                shared.store.execute(StorageOp::DeleteDLQ(message_id));
+            }
+            removed
         };
 
-        if removed {
-            shared.store.execute(StorageOp::DeleteDLQ(message_id));
-        }
-
         Ok(removed)
     }
 
@@ -517,10 +505,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let count = inner.dlq.len();
             inner.dlq.clear();
+            shared.store.execute(StorageOp::PurgeDLQ);
             count
         };
 
-        shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
     }
 }
-- 
2.43.0


From 1ac7d69cf24857e2754b08789b112d7e01a95bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 15/29] fix: send stream appends to storage under the topic
 lock

---
 src/brokers/stream/manager.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index ad6e948..31d0908 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -172,21 +172,23 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+
+            // Sent under the lock: messages reach the log file in the order of their sequence numbers.
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 348655b18da53860e16a25c7a2a0d2e921c9c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 16/29] fix: refuse topics with more than 256 levels, they
 overflowed the stack

---
 src/brokers/pub-sub/tcp.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/tcp.rs b/src/brokers/pub-sub/tcp.rs
index 32d4e46..49e3dd0 100644
--- a/src/brokers/pub-sub/tcp.rs
+++ b/src/brokers/pub-sub/tcp.rs
@@ -20,6 +20,17 @@ pub const OP_PUB: u8 = 0x21;
 pub const OP_SUB: u8 = 0x22;
 pub const OP_UNSUB: u8 = 0x23;
 
+/// The topic tree is walked recursively: a topic with too many levels would overflow the stack.
+const MAX_TOPIC_LEVELS: usize = 256;
+
+fn read_topic(cursor: &mut PayloadCursor) -> Result<String, ParseError> {
+    let topic = cursor.read_string()?;
+    if topic.split('/').count() > MAX_TOPIC_LEVELS {
+        return Err(ParseError::Invalid(format!("Topic has more than {} levels", MAX_TOPIC_LEVELS)));
+    }
+    Ok(topic)
+}
+
 // ==========================================
 // COMMANDS
 // ==========================================
@@ -35,7 +46,7 @@ impl PubSubCommand {
     fn parse(opcode: u8, cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
         match opcode {
             OP_PUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 let json_str = cursor.read_string()?;
                 let options: PubSubPublishOptions = serde_json::from_str(&json_str)
                     .map_err(|e| ParseError::Invalid(format!("Invalid JSON options: {}", e)))?;
@@ -43,11 +54,11 @@ impl PubSubCommand {
                 Ok(Self::Publish { topic, options, payload })
             }
             OP_SUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Subscribe { topic })
             }
             OP_UNSUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Unsubscribe { topic })
             }
             _ => Err(ParseError::Invalid(format!("Unknown PubSub opcode: 0x{:02X}", opcode))),
-- 
2.43.0


From 4047c26b9d1587169b4323ce02b01eb11176c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 17/29] fix: show store entries whose expiry lies beyond the
 calendar's range

---
 src/brokers/store/http.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brokers/store/http.rs b/src/brokers/store/http.rs
index 05f426e..724e229 100644
--- a/src/brokers/store/http.rs
+++ b/src/brokers/store/http.rs
@@ -57,10 +57,11 @@ async fn get_store(
         .map(|entry| {
             let exp_at = match entry.expires_at {
                 Some(expiry) => {
-                    let sys_now = std::time::SystemTime::now();
                     let dur = expiry.saturating_duration_since(now);
-                    let future_sys = sys_now + dur;
-                    chrono::DateTime::<chrono::Utc>::from(future_sys).to_rfc3339()
+                    // An expiry beyond the calendar's range has no date
+                    chrono::TimeDelta::from_std(dur).ok()
+                        .and_then(|delta| chrono::Utc::now().checked_add_signed(delta))
+                        .map_or_else(|| "Never".to_string(), |at| at.to_rfc3339())
                 }
                 None => "Never".to_string(),
             };
-- 
2.43.0


From 9b038728db52cd49b8ec7ba8831bbdd6bccc8357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 18/29] fix: huge offsets in the pub/sub dashboard query
 overflowed

---
 src/brokers/pub-sub/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index ae1a39c..758b122 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -209,7 +209,7 @@ impl PubSubManager {
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
         let total_topics = all_topics.len();
         
-        let end = (offset + limit).min(total_topics);
+        let end = offset.saturating_add(limit).min(total_topics);
         let paginated = if offset < total_topics {
             all_topics[offset..end].to_vec()
         } else {
-- 
2.43.0


From 27f22a404ad004c10007071ee444a99faa56ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:41 +0000
Subject: [PATCH 19/29] fix: a connection ended by a protocol error or reset
 was never cleaned up

---
 src/transport/tcp/connection.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..ff09430 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let outcome = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -79,17 +79,17 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
 
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
-                match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
-                }
+                break match socket_result {
+                    Ok(Ok(())) => Ok(()), // Clean disconnect
+                    Ok(Err(err)) => Err(format!("Protocol error: {err:?}")),
+                    Err(err) => Err(format!("Socket task panicked: {err:?}")),
+                };
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
@@ -101,7 +101,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    outcome
 }
 
 
-- 
2.43.0


From 0b6a9db631ea6212ece1cd50ae3a47ac96914a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 20/29] fix: queue and stream names could reach files outside
 their own directory

Names are used as file and directory names. A stream named ".." deleted
the directory above the streams, one named "" all of them, and names too long
for their files were accepted and lost at the next start.
---
 src/brokers/queue/manager.rs  | 13 +++++++++++++
 src/brokers/stream/manager.rs | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 797a0c6..65d9e5b 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -219,6 +219,15 @@ impl QueueManager {
         self.queues.get(name).map(|r| r.value().clone())
     }
 
+    /// A queue's name is part of the names of its files.
+    fn check_name(name: &str) -> Result<(), String> {
+        const MAX_FILE_NAME: usize = 255;
+        if name.contains(['/', '\0']) || name.len() + ".config.json".len() > MAX_FILE_NAME {
+            return Err("Invalid queue name".to_string());
+        }
+        Ok(())
+    }
+
     fn persist_batch_state(&self, shared: &Arc<QueueShared>, msgs: &[Message]) {
         for msg in msgs {
             shared.store.execute(StorageOp::UpdateState {
@@ -236,6 +245,8 @@ impl QueueManager {
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         use dashmap::mapref::entry::Entry;
 
+        Self::check_name(&name)?;
+
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
             Entry::Vacant(v) => {
@@ -256,6 +267,8 @@ impl QueueManager {
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        Self::check_name(&name)?;
+
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
         }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 31d0908..2245a1c 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -110,7 +110,17 @@ impl StreamManager {
         self.cancel.cancel();
     }
 
+    /// A topic's name is the name of its directory.
+    fn check_name(name: &str) -> Result<(), String> {
+        const MAX_FILE_NAME: usize = 255;
+        if matches!(name, "" | "." | "..") || name.contains(['/', '\0']) || name.len() > MAX_FILE_NAME {
+            return Err("Invalid topic name".to_string());
+        }
+        Ok(())
+    }
+
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        Self::check_name(&name)?;
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
@@ -154,6 +164,7 @@ impl StreamManager {
     }
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
+        Self::check_name(&name)?;
         self.deleted_topics.insert(name.clone(), ());
 
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
@@ -435,6 +446,9 @@ impl StreamManager {
         if self.topics.contains_key(name) {
             return true;
         }
+        if Self::check_name(name).is_err() {
+            return false;
+        }
 
         let path = PathBuf::from(&self.config.persistence_path).join(name);
         tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
-- 
2.43.0


From 83968fa868895db49318c712a58a628f21ced911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:07 +0000
Subject: [PATCH 21/29] fix: a group id of 64 KB or more made the saved groups
 of its stream unreadable

---
 src/brokers/stream/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 2245a1c..0099415 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -119,6 +119,14 @@ impl StreamManager {
         Ok(())
     }
 
+    /// Group ids are saved with a length of 16 bits.
+    fn check_group(group: &str) -> Result<(), String> {
+        if group.len() > u16::MAX as usize {
+            return Err("Group id too long".to_string());
+        }
+        Ok(())
+    }
+
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         Self::check_name(&name)?;
         self.deleted_topics.remove(&name);
@@ -304,6 +312,7 @@ impl StreamManager {
     }
 
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
+        Self::check_group(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         {
             let mut inner = Self::lock_topic(&topic_ref.inner);
@@ -360,6 +369,7 @@ impl StreamManager {
     }
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
+        Self::check_group(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
-- 
2.43.0


From 011398b21a070d477bd0280bee72d3b9d8deedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:12 +0000
Subject: [PATCH 22/29] fix: parallel creates and deletes of one queue could
 leave it without its files

---
 src/brokers/queue/manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 65d9e5b..d8c4d32 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -46,6 +46,8 @@ struct QueueInner {
 #[derive(Clone)]
 pub struct QueueManager {
     queues: Arc<DashMap<String, Arc<QueueShared>>>,
+    /// Held while a queue is created or deleted.
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
     config: Arc<SystemQueueConfig>,
     cancel: CancellationToken,
 }
@@ -63,6 +65,7 @@ impl QueueManager {
 
         let manager = Self {
             queues: queues.clone(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
             config: system_config.clone(),
             cancel: cancel.clone(),
         };
@@ -246,6 +249,7 @@ impl QueueManager {
         use dashmap::mapref::entry::Entry;
 
         Self::check_name(&name)?;
+        let _lifecycle = self.lifecycle.lock().await;
 
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
@@ -268,6 +272,7 @@ impl QueueManager {
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
         Self::check_name(&name)?;
+        let _lifecycle = self.lifecycle.lock().await;
 
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
-- 
2.43.0


From a61f78a549af832294fa695d68f2dbcc68532933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:28 +0000
Subject: [PATCH 23/29] fix: parallel create, delete and publish on one stream
 could bring a deleted stream back or mix its settings

---
 src/brokers/stream/manager.rs | 67 ++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 0099415..afaf535 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -37,6 +37,8 @@ struct TopicInner {
     client_map: HashMap<String, Vec<ConsumerBinding>>,
     groups_dirty: bool,
     full_config: TopicConfig,
+    /// Set once the topic is being deleted: nothing of it may reach the storage any more.
+    deleted: bool,
 }
 
 /// Marks a disk read of a group as over, also when the fetching client went away in the middle of it.
@@ -73,6 +75,8 @@ pub struct JoinGroupResult {
 pub struct StreamManager {
     topics: Arc<DashMap<String, Arc<TopicShared>>>,
     deleted_topics: Arc<DashMap<String, ()>>,
+    /// Held while a topic is created or deleted.
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
@@ -96,6 +100,7 @@ impl StreamManager {
         let manager = Self {
             topics,
             deleted_topics,
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
             storage_tx,
             config,
             cancel: CancellationToken::new(),
@@ -129,6 +134,7 @@ impl StreamManager {
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         Self::check_name(&name)?;
+        let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
@@ -173,10 +179,15 @@ impl StreamManager {
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
         Self::check_name(&name)?;
+        let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.insert(name.clone(), ());
 
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
-        if self.topics.remove(&name).is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
+        let removed = self.topics.remove(&name);
+        if let Some((_, topic_ref)) = &removed {
+            Self::lock_topic(&topic_ref.inner).deleted = true;
+        }
+        if removed.is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
             let (del_tx, del_rx) = oneshot::channel();
             let _ = self.storage_tx.send(StorageCommand::DropTopic {
                 topic_name: name,
@@ -193,6 +204,9 @@ impl StreamManager {
 
         let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
+            if inner.deleted {
+                return Err("Topic not found".to_string());
+            }
             let (seq, timestamp) = inner.state.append(payload.clone());
 
             // Sent under the lock: messages reach the log file in the order of their sequence numbers.
@@ -559,6 +573,7 @@ impl StreamManager {
                 client_map: HashMap::new(),
                 groups_dirty,
                 full_config: config,
+                deleted: false,
             }),
             notify: Notify::new(),
             persisted_seq,
@@ -602,22 +617,17 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let groups_data = {
-                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
-                            if !inner.groups_dirty {
-                                None
-                            } else {
-                                inner.groups_dirty = false;
-                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
-                            }
-                        };
-
-                        if let Some(groups_data) = groups_data {
-                            let _ = storage_tx.send(StorageCommand::SaveGroups {
-                                topic_name,
-                                groups_data,
-                            });
+                        let mut inner = StreamManager::lock_topic(&topic_ref.inner);
+                        if !inner.groups_dirty || inner.deleted {
+                            continue;
                         }
+                        inner.groups_dirty = false;
+                        let groups_data = inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>();
+                        // Sent under the lock, so that it cannot follow the deletion of the topic.
+                        let _ = storage_tx.send(StorageCommand::SaveGroups {
+                            topic_name,
+                            groups_data,
+                        });
                     }
                 }
             }
@@ -637,19 +647,20 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let (retention, max_segment_size) = {
-                            let inner = StreamManager::lock_topic(&topic_ref.inner);
-                            (inner.full_config.retention.clone(), inner.full_config.max_segment_size)
-                        };
-
                         let (reply_tx, reply_rx) = oneshot::channel();
-                        if storage_tx.send(StorageCommand::ApplyRetention {
-                            topic_name,
-                            retention,
-                            max_segment_size,
-                            reply: reply_tx,
-                        }).is_err() {
-                            continue;
+                        {
+                            let inner = StreamManager::lock_topic(&topic_ref.inner);
+                            if inner.deleted {
+                                continue;
+                            }
+                            if storage_tx.send(StorageCommand::ApplyRetention {
+                                topic_name,
+                                retention: inner.full_config.retention.clone(),
+                                max_segment_size: inner.full_config.max_segment_size,
+                                reply: reply_tx,
+                            }).is_err() {
+                                continue;
+                            }
                         }
 
                         let Ok(outcome) = reply_rx.await else {
-- 
2.43.0


From 70604cedab3cced1ad879fd0cd0c0855078256da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 24/29] fix: TypeScript client: request ids went negative after
 2^31 requests and every call threw

---
 sdk/ts/src/connection.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index b6420af..84ca1f5 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -213,7 +213,7 @@ export class NexoConnection extends EventEmitter {
     options?: { timeoutMs?: number }
   ): Promise<{ status: ResponseStatus, cursor: Cursor }> {
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId % 0xFFFFFFFF) + 1;
 
     this.writer.begin();
     if (build) build(this.writer);
@@ -259,7 +259,7 @@ export class NexoConnection extends EventEmitter {
     if (!this.isConnected) return;
 
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId % 0xFFFFFFFF) + 1;
 
     this.writer.begin();
     if (build) build(this.writer);
-- 
2.43.0


From 1d2a47800a01e3e8434a582b640fe2d81637fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 25/29] fix: TypeScript client: disconnect() left calls pending
 for ever, a reconnect could follow it, and a failed connect() kept
 reconnecting

---
 sdk/ts/src/client.ts     | 8 +++++++-
 sdk/ts/src/connection.ts | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/client.ts b/sdk/ts/src/client.ts
index 58b840c..2072d68 100644
--- a/sdk/ts/src/client.ts
+++ b/sdk/ts/src/client.ts
@@ -42,7 +42,13 @@ export class NexoClient {
 
   static async connect(options: NexoOptions): Promise<NexoClient> {
     const client = new NexoClient(options);
-    await client.conn.connect();
+    try {
+      await client.conn.connect();
+    } catch (e) {
+      // The caller never gets this client: do not leave it reconnecting in the background.
+      client.disconnect();
+      throw e;
+    }
     return client;
   }
 
diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 84ca1f5..104d829 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -136,6 +136,9 @@ export class NexoConnection extends EventEmitter {
     while (this.shouldReconnect && !this.isConnected) {
       await new Promise(r => setTimeout(r, this.config.reconnectDelayMs));
 
+      // disconnect() may have been called in the meantime
+      if (!this.shouldReconnect) break;
+
       try {
         await this.createSocketAndConnect();
         this.logger.info("✅ Reconnected to Nexo Server");
@@ -271,8 +274,12 @@ export class NexoConnection extends EventEmitter {
     this.shouldReconnect = false;
     this.isReconnecting = false;
     this.stopSweep();
-    this.pending.clear();
     this.socket.destroy();
     this.isConnected = false;
+
+    // Nobody will answer these anymore: settle them instead of leaving the callers waiting forever.
+    const abandoned = [...this.pending.values()];
+    this.pending.clear();
+    abandoned.forEach(p => p.reject(new ConnectionClosedError()));
   }
 }
-- 
2.43.0


From c141c11ddb52fd404e53027a679b6c2ebb7fd8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 26/29] fix: TypeScript client: an undecodable pub/sub message
 took the whole process down

---
 sdk/ts/src/connection.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 104d829..13f40bb 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -198,9 +198,17 @@ export class NexoConnection extends EventEmitter {
       }
       case FrameType.PUSH_PUBSUB: {
         if (this.onPush) {
-          const pushCursor = new Cursor(payload);
-          const topic = pushCursor.readString();
-          const data = pushCursor.decodeAny();
+          let topic: string;
+          let data: any;
+          try {
+            const pushCursor = new Cursor(payload);
+            topic = pushCursor.readString();
+            data = pushCursor.decodeAny();
+          } catch (e) {
+            // Payloads come from other clients: one that cannot be decoded must not take this process down.
+            this.logger.error('[PubSub] Dropping undecodable message', e);
+            break;
+          }
           this.onPush(topic, data);
         }
         break;
-- 
2.43.0


From 492c201a86fb12a117a60f4cf372c7dcc207a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 27/29] fix: TypeScript client: an undecodable queue message
 failed its whole batch, concurrent subscribes both succeeded, consumers
 outlived disconnect()

---
 sdk/ts/src/brokers/queue.ts | 23 ++++++++++++-----------
 sdk/ts/src/connection.ts    |  5 +++++
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 326c6ea..3fbfc2c 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -47,7 +47,7 @@ const QueueCommands = {
       .any(data)
     ),
 
-  consume: async <T>(conn: NexoConnection, name: string, batchSize: number, waitMs: number): Promise<{ id: string, data: T }[]> => {
+  consume: async (conn: NexoConnection, name: string, batchSize: number, waitMs: number): Promise<{ id: string, payload: Buffer }[]> => {
     const res = await conn.send(QueueOpcode.Q_CONSUME, w => w
       .string(name)
       .string(JSON.stringify({ batchSize, waitMs }))
@@ -56,13 +56,12 @@ const QueueCommands = {
     const count = res.cursor.readU32();
     if (count === 0) return [];
 
-    const messages: { id: string; data: T }[] = [];
+    // Payloads are decoded one by one by the consumer, so that an undecodable one only fails itself.
+    const messages: { id: string; payload: Buffer }[] = [];
     for (let i = 0; i < count; i++) {
       const idHex = res.cursor.readUUID();
       const payloadLen = res.cursor.readU32();
-      const payloadBuf = res.cursor.readBuffer(payloadLen);
-      const data = new Cursor(payloadBuf).decodeAny();
-      messages.push({ id: idHex, data });
+      messages.push({ id: idHex, payload: res.cursor.readBuffer(payloadLen) });
     }
     return messages;
   },
@@ -231,13 +230,15 @@ export class NexoQueue<T = any> {
   async subscribe(callback: (data: T) => Promise<any> | any, options: QueueSubscribeOptions = {}): Promise<{ stop: () => void }> {
     if (this.isSubscribed) throw new Error(`Queue '${this.name}' already subscribed.`);
 
+    // Taken before the first await: a second subscribe() may be called while this one is still waiting.
+    this.isSubscribed = true;
+
     // Fail Fast: Check existence first
     if (!(await this.exists())) {
+      this.isSubscribed = false;
       throw new Error(`Queue '${this.name}' not found`);
     }
 
-    this.isSubscribed = true;
-
     const batchSize = options.batchSize ?? DEFAULT_CONFIG.queue.batchSize;
     const waitMs = options.waitMs ?? DEFAULT_CONFIG.queue.waitMs;
     const concurrency = options.concurrency ?? DEFAULT_CONFIG.queue.concurrency;
@@ -245,7 +246,7 @@ export class NexoQueue<T = any> {
     let active = true;
 
     const loop = async () => {
-      while (active) {
+      while (active && !this.conn.isClosed) {
         if (!this.conn.isConnected) {
           await new Promise(r => setTimeout(r, DEFAULT_CONFIG.connection.backoff.short));
           continue;
@@ -255,19 +256,19 @@ export class NexoQueue<T = any> {
           // Double check before sending
           if (!this.conn.isConnected) continue;
 
-          const messages = await QueueCommands.consume<T>(this.conn, this.name, batchSize, waitMs);
+          const messages = await QueueCommands.consume(this.conn, this.name, batchSize, waitMs);
 
           if (messages.length === 0) continue;
 
           await runConcurrent(messages, concurrency, async (msg) => {
-            if (!active) {
+            if (!active || this.conn.isClosed) {
               if (this.conn.isConnected) {
                 this.nack(msg.id, "Consumer stopped");
               }
               return;
             }
             try {
-              await callback(msg.data);
+              await callback(new Cursor(msg.payload).decodeAny());
               this.ack(msg.id);
             } catch (e: any) {
               if (!this.conn.isConnected) return;
diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 13f40bb..ce0fd1e 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -36,6 +36,11 @@ export class NexoConnection extends EventEmitter {
   // begin() (see FrameWriter docs).
   private readonly writer = new FrameWriter();
 
+  /** True once disconnect() was called: this connection will not come back. */
+  get isClosed(): boolean {
+    return !this.shouldReconnect;
+  }
+
   constructor(config: NexoConnectionConfig, logger: Logger) {
     super();
     this.config = config;
-- 
2.43.0


From 526483db2bea3630f1832717f1f5e466b5042324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 28/29] fix: TypeScript client: an undecodable stream message
 failed its whole batch, stop() during a join left a member behind, consumers
 outlived disconnect()

---
 sdk/ts/src/brokers/stream.ts | 45 +++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 7c7f9b8..1808e1d 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -77,17 +77,23 @@ class StreamSubscription<T> {
 
   async stop(): Promise<void> {
     this.active = false;
-    if (this.consumerId !== null) {
-      try {
-        await this.conn.send(StreamOpcode.S_LEAVE, w => w
-          .string(this.streamName)
-          .string(this.group)
-          .string(this.consumerId!)
-          .u64(this.generation)
-        );
-      } catch { /* connection may already be closed */ }
-    }
+    await this.leave(); // also ends a waiting fetch
     await this.loopDone;
+    await this.leave(); // the loop may have been (re)joining meanwhile
+  }
+
+  private async leave(): Promise<void> {
+    const consumerId = this.consumerId;
+    if (consumerId === null) return;
+    this.consumerId = null;
+    try {
+      await this.conn.send(StreamOpcode.S_LEAVE, w => w
+        .string(this.streamName)
+        .string(this.group)
+        .string(consumerId)
+        .u64(this.generation)
+      );
+    } catch { /* connection may already be closed */ }
   }
 
   private async join(): Promise<void> {
@@ -102,9 +108,12 @@ class StreamSubscription<T> {
   }
 
   private async loop(): Promise<void> {
-    while (this.active) {
+    while (this.active && !this.conn.isClosed) {
       try {
-        if (this.consumerId === null) await this.join();
+        if (this.consumerId === null) {
+          await this.join();
+          if (!this.active) break;
+        }
         await this.pollOnce();
       } catch (e: any) {
         if (!this.active) break;
@@ -139,19 +148,19 @@ class StreamSubscription<T> {
     const count = res.cursor.readU32();
     if (count === 0) return;
 
-    const batch: { seq: bigint; data: T }[] = [];
+    // Payloads are decoded one by one below, so that an undecodable one only fails itself.
+    const batch: { seq: bigint; payload: Buffer }[] = [];
     for (let i = 0; i < count; i++) {
       const seq = res.cursor.readU64();
       res.cursor.readU64(); // skip timestamp
       const payloadLen = res.cursor.readU32();
-      const payloadBuf = res.cursor.readBuffer(payloadLen);
-      batch.push({ seq, data: new Cursor(payloadBuf).decodeAny() as T });
+      batch.push({ seq, payload: res.cursor.readBuffer(payloadLen) });
     }
 
-    await runConcurrent(batch, this.concurrency, async ({ seq, data }) => {
-      if (!this.active) return;
+    await runConcurrent(batch, this.concurrency, async ({ seq, payload }) => {
+      if (!this.active || this.conn.isClosed) return;
       try {
-        await this.callback(data);
+        await this.callback(new Cursor(payload).decodeAny() as T);
         this.conn.sendFireAndForget(StreamOpcode.S_ACK, w => w
           .string(this.streamName)
           .string(this.group)
-- 
2.43.0


From c9c2d7b243036cb020970a163b4b85a9936f2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 29/29] fix: TypeScript client: an undecodable message in the
 dead-letter queue made it impossible to list

---
 sdk/ts/src/brokers/queue.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 3fbfc2c..fb73f41 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -92,7 +92,12 @@ const QueueCommands = {
       const idHex = res.cursor.readUUID();
       const payloadLen = res.cursor.readU32();
       const payloadBuf = res.cursor.readBuffer(payloadLen);
-      const data = new Cursor(payloadBuf).decodeAny();
+      let data: any;
+      try {
+        data = new Cursor(payloadBuf).decodeAny();
+      } catch {
+        data = payloadBuf; // undecodable (often why it is here): show the raw bytes
+      }
       const attempts = res.cursor.readU32();
       const failureReason = res.cursor.readString();
       items.push({ id: idHex, data, attempts, failureReason });
-- 
2.43.0

