From 409223cc3818251f77aa618a7554c5f5f31dcb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:09 +0000
Subject: [PATCH 01/15] fix: keep path segment boundaries in the route trie

A node created by splitting a key was indistinguishable from a node for the
next path segment, so /ab/cd also answered /abcd (and the reverse after a
split), middleware of /ab ran for /abcd, and unrelated routes such as
/user/:id and /users were refused as ambiguous.
---
 src/router/route_trie.rs | 53 +++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index a028bca..c0d574c 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -61,7 +61,7 @@ pub struct RouteTrie {
 impl RouteTrie {
     pub fn new() -> Self {
         RouteTrie {
-            head: Node::new("/".to_string(), None),
+            head: Node::new("/".to_string(), false, None),
         }
     }
 
@@ -105,7 +105,7 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -163,7 +163,7 @@ impl RouteTrie {
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
                         match &mut next_node.value {
@@ -258,15 +258,17 @@ impl RouteTrie {
         }
 
         while let Some(k) = split_key.next() {
-            match curr_node.process_insertion(k) {
+            match curr_node.process_insertion(k, false) {
                 Ok(next_node) => {
                     if split_key.peek().is_none() {
-                        if next_node.value.is_some() || !next_node.child_nodes.is_empty() {
+                        if next_node.value.is_some()
+                            || next_node.child_nodes.iter().any(|n| !n.is_continuation)
+                        {
                             panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
                         }
 
                         next_node.value = src.head.value;
-                        next_node.child_nodes = src.head.child_nodes;
+                        next_node.child_nodes.extend(src.head.child_nodes);
                         break;
                     }
                     curr_node = next_node;
@@ -306,30 +308,38 @@ impl RouteTrie {
 #[derive(Clone, Debug)]
 struct Node {
     key: String,
+    // Whether the key continues the path segment of the parent node (after a split)
+    // instead of starting a new path segment
+    is_continuation: bool,
     value: Option<RouteValue>,
     child_nodes: Vec<Node>,
 }
 
 impl Node {
-    fn new(key: String, value: Option<RouteValue>) -> Self {
+    fn new(key: String, is_continuation: bool, value: Option<RouteValue>) -> Self {
         Node {
             key,
+            is_continuation,
             value,
             child_nodes: Vec::default(),
         }
     }
 
     fn is_param(&self) -> bool {
-        self.key.chars().next().unwrap_or(' ') == ':'
+        !self.is_continuation && self.key.starts_with(':')
     }
 
     /// Process the side effects of node insertion
-    fn process_insertion(&mut self, key: &str) -> Result<&mut Self, ObsidianError> {
-        let action = self.get_insertion_action(key);
+    fn process_insertion(
+        &mut self,
+        key: &str,
+        is_continuation: bool,
+    ) -> Result<&mut Self, ObsidianError> {
+        let action = self.get_insertion_action(key, is_continuation);
 
         match action.name {
             ActionName::CreateNewNode => {
-                let new_node = Self::new(key.to_string(), None);
+                let new_node = Self::new(key.to_string(), is_continuation, None);
 
                 match key {
                     k if k == "*" => {
@@ -355,7 +365,7 @@ impl Node {
             }
             ActionName::SplitKey => {
                 if let Some(node) = self.child_nodes.get_mut(action.payload.node_index) {
-                    return node.process_insertion(&key[action.payload.match_count..]);
+                    return node.process_insertion(&key[action.payload.match_count..], true);
                 };
             }
             ActionName::SplitNode => {
@@ -365,7 +375,7 @@ impl Node {
                     let new_key = key[count..].to_string();
                     node.key = key[..count].to_string();
 
-                    let mut inter_node = Self::new(child_key, None);
+                    let mut inter_node = Self::new(child_key, true, None);
 
                     // Move out the previous child and transfer to intermediate node
                     inter_node.child_nodes = std::mem::take(&mut node.child_nodes);
@@ -378,7 +388,7 @@ impl Node {
                         return Ok(node);
                     }
 
-                    let new_node = Self::new(new_key, None);
+                    let new_node = Self::new(new_key, true, None);
 
                     node.child_nodes.insert(0, new_node);
                     if let Some(result_node) = node.child_nodes.first_mut() {
@@ -400,9 +410,13 @@ impl Node {
     }
 
     /// Determine the action required to be performed for the new route path
-    fn get_insertion_action(&self, key: &str) -> Action {
+    fn get_insertion_action(&self, key: &str, is_continuation: bool) -> Action {
         for (index, node) in self.child_nodes.iter().enumerate() {
-            let is_param = node.is_param() || key.chars().next().unwrap_or(' ') == ':';
+            if node.is_continuation != is_continuation {
+                continue;
+            }
+
+            let is_param = node.is_param() || (!is_continuation && key.starts_with(':'));
             if is_param {
                 // Only allow one param leaf in one children series
                 if key == node.key {
@@ -458,6 +472,10 @@ impl Node {
         let curr_key = key.remove(0);
 
         for node in self.child_nodes.iter() {
+            if node.is_continuation != is_break_parent {
+                continue;
+            }
+
             let mut break_key = false;
 
             if !is_break_parent {
@@ -554,7 +572,8 @@ impl Node {
                 } else if let Some(final_val) =
                     node.get_next_node(key, params, middlewares, break_key)
                 {
-                    if let Some(curr_val) = &node.value {
+                    // The node is not on the path when the key goes on within its segment
+                    if let (Some(curr_val), false) = (&node.value, break_key) {
                         middlewares.append(&mut curr_val.middlewares.clone());
                     }
 
-- 
2.43.0


From ee09dfbe70689f0ce8250d4034c7878418cfd267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:00 +0000
Subject: [PATCH 02/15] fix: run middlewares from the outermost path to the
 innermost

Middlewares below the root were collected from the matched node upwards, so a
middleware of /a/b ran before the one of /a although the root's ran first.
---
 src/router/route_trie.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index c0d574c..58e724d 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -201,13 +201,6 @@ impl RouteTrie {
         let mut params = HashMap::default();
         let mut middlewares = vec![];
 
-        match &curr_node.value {
-            Some(val) => {
-                middlewares.append(&mut val.middlewares.clone());
-            }
-            None => {}
-        }
-
         if !split_key.is_empty() {
             match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
                 Some(handler_node) => {
@@ -220,6 +213,11 @@ impl RouteTrie {
             }
         }
 
+        // Middlewares of the outer paths come first
+        if let Some(val) = &self.head.value {
+            middlewares.splice(0..0, val.middlewares.iter().cloned());
+        }
+
         match &curr_node.value {
             Some(val) => {
                 let route_val = RouteValue::new(middlewares, val.route.clone());
@@ -499,7 +497,8 @@ impl Node {
 
                                 match &node.value {
                                     Some(curr_val) => {
-                                        middlewares.append(&mut curr_val.middlewares.clone());
+                                        middlewares
+                                            .splice(0..0, curr_val.middlewares.iter().cloned());
                                     }
                                     None => {}
                                 }
@@ -574,7 +573,7 @@ impl Node {
                 {
                     // The node is not on the path when the key goes on within its segment
                     if let (Some(curr_val), false) = (&node.value, break_key) {
-                        middlewares.append(&mut curr_val.middlewares.clone());
+                        middlewares.splice(0..0, curr_val.middlewares.iter().cloned());
                     }
 
                     return Some(final_val);
-- 
2.43.0


From cfb5023396ecff2648c11328168ac136496adc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:01 +0000
Subject: [PATCH 03/15] fix: register middleware applied to "/"

use_service_to("/", ..) silently dropped the middleware.
---
 src/router/route_trie.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 58e724d..8c9b5b9 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -160,6 +160,12 @@ impl RouteTrie {
             }
         });
 
+        // if the path is "/"
+        if split_key.peek().is_none() {
+            self.insert_default_middleware(middleware);
+            return;
+        }
+
         let mut curr_node = &mut self.head;
 
         while let Some(k) = split_key.next() {
-- 
2.43.0


From c19840efde7f87be4bd2827e84c5ebdd2e426dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:03 +0000
Subject: [PATCH 04/15] fix: keep the registered route when a duplicate is
 refused

The duplicate replaced the registered handler before the panic was raised, so
a refused registration changed the answers of the router.
---
 src/router/resource.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/router/resource.rs b/src/router/resource.rs
index 808c93b..cc5f513 100644
--- a/src/router/resource.rs
+++ b/src/router/resource.rs
@@ -20,6 +20,11 @@ impl Default for Resource {
 
 impl Resource {
     pub fn add_route(&mut self, method: Method, route: Route) -> Option<Route> {
+        // Keep the registered route and give the duplicate back
+        if self.route_map.contains_key(&method) {
+            return Some(route);
+        }
+
         self.route_map.insert(method, route)
     }
 
-- 
2.43.0


From 53b0da69a13fa7ed40b5d95c656d7e38737f7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:04 +0000
Subject: [PATCH 05/15] fix: refuse to mount a router over existing routes at
 "/"

Mounting at "/" silently threw away every route and middleware registered
before, while the same conflict below "/" was refused.
---
 src/router/route_trie.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 8c9b5b9..7c189af 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -257,6 +257,10 @@ impl RouteTrie {
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
+            if des.head.value.is_some() || !des.head.child_nodes.is_empty() {
+                panic!("There is conflict between main router and sub router at '{}'. Make sure main router does not consist any routing data in '{}'.", path, path);
+            }
+
             des.head = src.head;
             return;
         }
-- 
2.43.0


From 6d69e682b019dd2715fd3b03332c9df0bf56c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 06/15] fix: refuse to mount routes behind a wildcard

use_router("/x/*", router) accepted a router whose routes can never be
reached, and hid shallower wildcards for its requests.
---
 src/router/route_trie.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 7c189af..082eb52 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -254,6 +254,11 @@ impl RouteTrie {
             }
         });
 
+        // Nothing can be reached behind a wildcard
+        if split_key.clone().last() == Some("*") && !src.head.child_nodes.is_empty() {
+            panic!("ERROR: * must be in the last at: {}", path);
+        }
+
         let mut curr_node = &mut des.head;
 
         if split_key.peek().is_none() {
-- 
2.43.0


From f3644dfb734cf675dff8816d6170bd7ed0d02de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:27 +0000
Subject: [PATCH 07/15] fix: middleware on a path must not hide the route
 answering it

With a route at /w/* and a middleware on /w/m, requests to /w/m got 404: the
node holding only the middleware ended the search.
---
 src/router/resource.rs   |  4 ++++
 src/router/route_trie.rs | 50 ++++++++++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/router/resource.rs b/src/router/resource.rs
index cc5f513..09b8488 100644
--- a/src/router/resource.rs
+++ b/src/router/resource.rs
@@ -31,4 +31,8 @@ impl Resource {
     pub fn get_route(&self, method: &Method) -> Option<&Route> {
         self.route_map.get(&method)
     }
+
+    pub fn is_empty(&self) -> bool {
+        self.route_map.is_empty()
+    }
 }
diff --git a/src/router/route_trie.rs b/src/router/route_trie.rs
index 082eb52..304deb3 100644
--- a/src/router/route_trie.rs
+++ b/src/router/route_trie.rs
@@ -25,6 +25,10 @@ impl RouteValue {
     pub fn new(middlewares: Vec<Arc<dyn Middleware>>, route: Resource) -> Self {
         RouteValue { middlewares, route }
     }
+
+    fn is_match(&self, require_route: bool) -> bool {
+        !require_route || !self.route.is_empty()
+    }
 }
 
 pub struct RouteValueResult {
@@ -208,7 +212,26 @@ impl RouteTrie {
         let mut middlewares = vec![];
 
         if !split_key.is_empty() {
-            match curr_node.get_next_node(&mut split_key, &mut params, &mut middlewares, false) {
+            // Node without any route is only matched when there is no node with route
+            let next_node = curr_node
+                .get_next_node(
+                    &mut split_key.clone(),
+                    &mut params,
+                    &mut middlewares,
+                    false,
+                    true,
+                )
+                .or_else(|| {
+                    curr_node.get_next_node(
+                        &mut split_key,
+                        &mut params,
+                        &mut middlewares,
+                        false,
+                        false,
+                    )
+                });
+
+            match next_node {
                 Some(handler_node) => {
                     curr_node = handler_node;
                 }
@@ -481,6 +504,7 @@ impl Node {
         params: &mut HashMap<String, String>,
         middlewares: &mut Vec<std::sync::Arc<(dyn Middleware + 'static)>>,
         is_break_parent: bool,
+        require_route: bool,
     ) -> Option<&Self> {
         let curr_key = key.remove(0);
 
@@ -496,17 +520,18 @@ impl Node {
                 if node.is_param() {
                     if key.is_empty() {
                         match &node.value {
-                            Some(curr_val) => {
+                            Some(curr_val) if curr_val.is_match(require_route) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
                                 middlewares.append(&mut curr_val.middlewares.clone());
                                 return Some(node);
                             }
-                            None => {
+                            _ => {
                                 continue;
                             }
                         }
                     } else {
-                        match node.get_next_node(key, params, middlewares, break_key) {
+                        match node.get_next_node(key, params, middlewares, break_key, require_route)
+                        {
                             Some(final_val) => {
                                 params.insert(node.key[1..].to_string(), curr_key.to_string());
 
@@ -530,10 +555,10 @@ impl Node {
                 // Check wildcard
                 if node.key == "*" {
                     match &node.value {
-                        Some(curr_val) => {
+                        Some(curr_val) if curr_val.is_match(require_route) => {
                             middlewares.append(&mut curr_val.middlewares.clone());
                         }
-                        None => {}
+                        _ => continue,
                     }
 
                     return Some(node);
@@ -566,14 +591,21 @@ impl Node {
             if count != 0 && count == node.key.len() {
                 if key.is_empty() {
                     match &node.value {
-                        Some(curr_val) => {
+                        Some(curr_val) if curr_val.is_match(require_route) => {
                             middlewares.append(&mut curr_val.middlewares.clone());
                             return Some(node);
                         }
-                        None => {
+                        _ => {
                             for child in node.child_nodes.iter() {
                                 if child.key == "*" {
                                     if let Some(child_val) = &child.value {
+                                        if !child_val.is_match(require_route) {
+                                            continue;
+                                        }
+
+                                        if let Some(curr_val) = &node.value {
+                                            middlewares.append(&mut curr_val.middlewares.clone());
+                                        }
                                         middlewares.append(&mut child_val.middlewares.clone());
                                         return Some(child);
                                     }
@@ -584,7 +616,7 @@ impl Node {
                         }
                     }
                 } else if let Some(final_val) =
-                    node.get_next_node(key, params, middlewares, break_key)
+                    node.get_next_node(key, params, middlewares, break_key, require_route)
                 {
                     // The node is not on the path when the key goes on within its segment
                     if let (Some(curr_val), false) = (&node.value, break_key) {
-- 
2.43.0


From 7191a44f7793877e385f9ff996178d902352ef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:29 +0000
Subject: [PATCH 08/15] fix: do not panic in the logger when no response was
 set

A handler that returns its context without a response is answered with an
empty 200, but with the default logger the request panicked instead.
---
 src/middleware/logger.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/middleware/logger.rs b/src/middleware/logger.rs
index 5a7537d..7455a43 100644
--- a/src/middleware/logger.rs
+++ b/src/middleware/logger.rs
@@ -5,6 +5,7 @@ use crate::app::EndpointExecutor;
 use crate::context::Context;
 use crate::middleware::Middleware;
 use crate::router::ContextResult;
+use crate::StatusCode;
 
 use colored::*;
 
@@ -33,11 +34,12 @@ impl Middleware for Logger {
         match ep_executor.next(context).await {
             Ok(context_after) => {
                 let duration = start.elapsed();
-                println!(
-                    "[info] Sent {} in {:?}",
-                    context_after.response().as_ref().unwrap().status(),
-                    duration
-                );
+                // No response means an empty OK response
+                let status = context_after
+                    .response()
+                    .as_ref()
+                    .map_or(StatusCode::OK, |response| response.status());
+                println!("[info] Sent {} in {:?}", status, duration);
                 Ok(context_after)
             }
             Err(error) => {
-- 
2.43.0


From 8fbdcf076d9ac5ccc1b0c3ed34b3c374e4429e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 09/15] fix: parse the whole body in form() and json()

Only the first chunk of the aggregated body was parsed, so a body arriving in
several chunks was truncated.
---
 src/context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 1166c71..d5c1617 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -1,5 +1,5 @@
 use http::Extensions;
-use hyper::{body, body::Buf};
+use hyper::body;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use url::form_urlencoded;
@@ -176,14 +176,14 @@ impl Context {
     pub async fn form<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Self::parse_queries(buf.chunk())
+        Self::parse_queries(&buf)
     }
 
     /// Form value merge with Params
@@ -241,14 +241,14 @@ impl Context {
     pub async fn json<T: DeserializeOwned>(&mut self) -> Result<T, ObsidianError> {
         let body = self.take_body();
 
-        let buf = match body::aggregate(body).await {
+        let buf = match body::to_bytes(body).await {
             Ok(buf) => buf,
             _ => {
                 return Err(ObsidianError::NoneError);
             }
         };
 
-        Ok(serde_json::from_slice(buf.chunk())?)
+        Ok(serde_json::from_slice(&buf)?)
     }
 
     /// Json value merged with Params
-- 
2.43.0


From 475321549712ca4b4522361279828f60ff3f8c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:54 +0000
Subject: [PATCH 10/15] fix: never serve files outside the static directory

".." segments of the request path were appended to the directory as they came,
so GET /files/../secret returned files outside it.
---
 src/router.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/router.rs b/src/router.rs
index 8eff03d..24d8480 100644
--- a/src/router.rs
+++ b/src/router.rs
@@ -10,7 +10,7 @@ mod route_trie;
 use self::route_trie::RouteTrie;
 use crate::context::Context;
 use crate::middleware::Middleware;
-use crate::Method;
+use crate::{Method, StatusCode};
 pub use hyper::header;
 
 pub use self::handler::{ContextResult, Handler};
@@ -94,7 +94,7 @@ impl Router {
         let mut path = String::from(dir_path);
         path.push_str("/*");
 
-        self.get(&path, Self::static_dir_file_handler);
+        self.get(&path, Self::static_virtual_file_handler(dir_path, dir_path));
     }
 
     /// Apply route handler in current relative route
@@ -135,27 +135,24 @@ impl Router {
                 .map(|x| x.to_string())
                 .collect::<Vec<String>>();
 
+            // Never leave the served directory
+            let is_outside = relative_path.iter().any(|key| key == "..");
+
             dir_path.append(&mut relative_path);
 
             Box::pin(async move {
+                if is_outside {
+                    return ctx
+                        .build("404 Not Found")
+                        .with_status(StatusCode::NOT_FOUND)
+                        .ok();
+                }
+
                 ctx.build(Response::ok().file(&dir_path.join("/")).await)
                     .ok()
             })
         }
     }
-
-    async fn static_dir_file_handler(ctx: Context) -> ContextResult {
-        let relative_path = ctx
-            .uri()
-            .path()
-            .split('/')
-            .filter(|key| !key.is_empty())
-            .map(|x| x.to_string())
-            .collect::<Vec<String>>();
-
-        ctx.build(Response::ok().file(&relative_path.join("/")).await)
-            .ok()
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 878d549e0482bf6af69d2d234bce65bc7ea4514f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:56 +0000
Subject: [PATCH 11/15] fix: serve files that are not valid UTF-8

Response::file read the file as a string, so every binary file was answered
with 404.
---
 src/router/response.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/router/response.rs b/src/router/response.rs
index 4c5ce92..7f11f0b 100644
--- a/src/router/response.rs
+++ b/src/router/response.rs
@@ -129,9 +129,12 @@ impl Response {
         }
     }
 
-    pub async fn file(self, file_path: &str) -> Self {
-        match fs::read_to_string(file_path.to_string()).await {
-            Ok(content) => self.set_body(content),
+    pub async fn file(mut self, file_path: &str) -> Self {
+        match fs::read(file_path.to_string()).await {
+            Ok(content) => {
+                self.body = Body::from(content);
+                self
+            }
             Err(err) => {
                 dbg!(&err);
                 self.set_body(err.to_string())
-- 
2.43.0


From 2e8c8ec3c6dd031b0e040632b66425d5ab7be7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:58 +0000
Subject: [PATCH 12/15] fix: answer 500 for a response header that cannot be
 sent

An invalid header value panicked while the response was built and the client
lost its connection without an answer.
---
 src/app.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/app.rs b/src/app.rs
index 2a8101a..fd15a15 100644
--- a/src/app.rs
+++ b/src/app.rs
@@ -240,10 +240,12 @@ impl AppServer {
                         if let Some(response) = ctx.take_response() {
                             if let Some(headers) = response.headers() {
                                 if let Some(response_headers) = res.headers_mut() {
-                                    headers.iter().for_each(move |(key, value)| {
-                                        response_headers
-                                            .insert(key, header::HeaderValue::from_static(value));
-                                    });
+                                    for (key, value) in headers {
+                                        match header::HeaderValue::from_str(value) {
+                                            Ok(value) => response_headers.insert(key, value),
+                                            Err(err) => return Ok(internal_server_error(err)),
+                                        };
+                                    }
                                 }
                             }
                             res.status(response.status()).body(response.body())
-- 
2.43.0


From 774d7e6c63c5df61ff6025504b1909c9b8628077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 13/15] fix: refuse a value of several characters for a char
 field

Everything after the first character was silently dropped.
---
 src/router/req_deserializer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index af23374..6cb22b3 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -242,9 +242,9 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        match self.input[0].chars().next() {
-            Some(val) => visitor.visit_char(val),
-            _ => Err(Error::NoneError),
+        match self.input[0].parse::<char>() {
+            Ok(val) => visitor.visit_char(val),
+            Err(e) => Err(Error::Message(format!("{}", e))),
         }
     }
 
-- 
2.43.0


From 4c5fcba075b3a6ed35c0ba8a29edebb676e8e0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:01 +0000
Subject: [PATCH 14/15] fix: from_cow_map must not panic or lose values on
 empty input

An empty value in a list of options was skipped twice, which dropped the value
after it or indexed past the end, and an empty list always panicked.
---
 src/router/req_deserializer.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 6cb22b3..9a684ac 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -188,7 +188,7 @@ macro_rules! from_string_forms_impl {
             fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
                 where V: de::Visitor<'de>
             {
-                match self.input[0].parse::<$t>() {
+                match self.first()?.parse::<$t>() {
                     Ok(result) => result.into_deserializer().$method(visitor),
                     Err(e) => Err(Error::Message(format!("{}", e))),
                 }
@@ -205,6 +205,10 @@ impl<'de> FormValueDeserializer<'de> {
     pub fn new(input: &'de [std::string::String]) -> Self {
         FormValueDeserializer { input }
     }
+
+    fn first(&self) -> Result<&'de String, Error> {
+        self.input.first().ok_or(Error::NoneError)
+    }
 }
 
 impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
@@ -228,21 +232,21 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_string(self.input[0].clone())
+        visitor.visit_string(self.first()?.clone())
     }
 
     fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_str(&self.input[0])
+        visitor.visit_str(self.first()?)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Error>
     where
         V: Visitor<'de>,
     {
-        match self.input[0].parse::<char>() {
+        match self.first()?.parse::<char>() {
             Ok(val) => visitor.visit_char(val),
             Err(e) => Err(Error::Message(format!("{}", e))),
         }
@@ -252,8 +256,7 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
+        if self.first().map_or(true, |value| value.is_empty()) {
             visitor.visit_none()
         } else {
             visitor.visit_some(self)
@@ -264,10 +267,6 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        if self.input.starts_with(&[String::default()]) {
-            self.input = &self.input[1..];
-        }
-
         visitor.visit_unit()
     }
 
@@ -346,7 +345,7 @@ impl<'de, 'a> SeqAccess<'de> for FromSeq<'a, 'de> {
     where
         T: DeserializeSeed<'de>,
     {
-        if self.de.input.len() == 1 && !self.first {
+        if self.de.input.is_empty() || (self.de.input.len() == 1 && !self.first) {
             return Ok(None);
         }
 
-- 
2.43.0


From 614cb662f6434c39bba8fe1185336303d2c5b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:42 +0000
Subject: [PATCH 15/15] fix: ignore fields the target does not name even when
 they hold no value

---
 src/router/req_deserializer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/router/req_deserializer.rs b/src/router/req_deserializer.rs
index 9a684ac..8869507 100644
--- a/src/router/req_deserializer.rs
+++ b/src/router/req_deserializer.rs
@@ -302,10 +302,16 @@ impl<'de> de::Deserializer<'de> for &mut FormValueDeserializer<'de> {
         self.deserialize_str(visitor)
     }
 
+    fn deserialize_ignored_any<V>(self, visitor: V) -> Result<V::Value, Error>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_unit()
+    }
+
     forward_to_deserialize_any! {
         bytes
         byte_buf
-        ignored_any
         map
         struct
         tuple_struct
-- 
2.43.0

