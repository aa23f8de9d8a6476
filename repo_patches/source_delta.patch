From 4515302eade451992a7fb2eca8a4cdd4d4d28dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 01/22] sim: guarded seam for buffer refills and interruption
 points (cfg mitex_sim, off by default)

---
 crates/mitex-lexer/src/lib.rs          |  6 ++++
 crates/mitex-lexer/src/macro_engine.rs |  6 +++-
 crates/mitex-lexer/src/sim.rs          | 42 ++++++++++++++++++++++++++
 crates/mitex-lexer/src/stream.rs       |  6 +++-
 crates/mitex-parser/src/lib.rs         |  5 +++
 crates/mitex-parser/src/parser.rs      |  2 ++
 crates/mitex/src/converter.rs          |  3 ++
 crates/mitex/src/lib.rs                |  3 ++
 8 files changed, 71 insertions(+), 2 deletions(-)
 create mode 100644 crates/mitex-lexer/src/sim.rs

diff --git a/crates/mitex-lexer/src/lib.rs b/crates/mitex-lexer/src/lib.rs
index a1697cb..89df395 100644
--- a/crates/mitex-lexer/src/lib.rs
+++ b/crates/mitex-lexer/src/lib.rs
@@ -10,7 +10,13 @@
 //! - [`Lexer<MacroEngine>`]: provides tokens with macro expansion
 //!   - See [`MacroEngine`] for implementation
 
+// `mitex_sim` is a custom cfg for deterministic simulation
+#![allow(unexpected_cfgs)]
+
 mod macro_engine;
+#[cfg(mitex_sim)]
+#[allow(missing_docs)]
+pub mod sim;
 pub mod snapshot_map;
 mod stream;
 mod token;
diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..15e95e8 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -396,12 +396,16 @@ impl<'a> MacroEngine<'a> {
         /// Reserve one item for the peeked token
         const PEEK_CACHE_SIZE_M1: usize = PEEK_CACHE_SIZE - 1;
 
+        let cache_size = PEEK_CACHE_SIZE_M1;
+        #[cfg(mitex_sim)]
+        let cache_size = crate::sim::refill(crate::sim::Site::MacroRefill, cache_size);
+
         // Get a token from the inner stream
         if ctx.peek_full().is_none() {
             ctx.next_token();
         }
 
-        while ctx.peek_outer.buf.len() < PEEK_CACHE_SIZE_M1 {
+        while ctx.peek_outer.buf.len() < cache_size {
             let Some(token) = ctx.peek_full() else {
                 break;
             };
diff --git a/crates/mitex-lexer/src/sim.rs b/crates/mitex-lexer/src/sim.rs
new file mode 100644
index 0000000..c29da9c
--- /dev/null
+++ b/crates/mitex-lexer/src/sim.rs
@@ -0,0 +1,42 @@
+//! Seam for deterministic simulation, only compiled with `--cfg mitex_sim`.
+//!
+//! A simulator installs one hook per process. It is asked how many tokens a
+//! buffer refill may fetch, and it is told when the pipeline passes a point at
+//! which a conversion may be interrupted.
+
+use std::sync::OnceLock;
+
+/// Where the pipeline currently is
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Site {
+    /// The plain token buffer is refilled
+    PlainRefill,
+    /// The macro expanding token buffer is refilled
+    MacroRefill,
+    /// The parser is about to parse an item
+    ParseItem,
+    /// The converter is about to convert an element
+    ConvertItem,
+}
+
+/// Receives the site and the default value, returns the value to use
+pub type Hook = fn(Site, usize) -> usize;
+
+static HOOK: OnceLock<Hook> = OnceLock::new();
+
+/// Install the hook of this process, the first one wins
+pub fn install(hook: Hook) {
+    let _ = HOOK.set(hook);
+}
+
+/// The number of tokens that a refill may fetch (at least one)
+pub fn refill(site: Site, default: usize) -> usize {
+    HOOK.get().map_or(default, |hook| hook(site, default).max(1))
+}
+
+/// Pass an interruption point
+pub fn point(site: Site) {
+    if let Some(hook) = HOOK.get() {
+        hook(site, 0);
+    }
+}
diff --git a/crates/mitex-lexer/src/stream.rs b/crates/mitex-lexer/src/stream.rs
index 1f75098..114ff39 100644
--- a/crates/mitex-lexer/src/stream.rs
+++ b/crates/mitex-lexer/src/stream.rs
@@ -54,8 +54,12 @@ impl<'a> LexCache<'a> {
         /// The item size of the peek cache
         const PEEK_CACHE_SIZE: usize = (PAGE_SIZE - 16) / std::mem::size_of::<Tok<'static>>();
 
+        let cache_size = PEEK_CACHE_SIZE;
+        #[cfg(mitex_sim)]
+        let cache_size = crate::sim::refill(crate::sim::Site::PlainRefill, cache_size);
+
         // Fill the peek cache with a page of tokens
-        self.buf.extend(peeked.take(PEEK_CACHE_SIZE));
+        self.buf.extend(peeked.take(cache_size));
         // Reverse the peek cache to make it a stack
         self.buf.reverse();
         // Pop the first token again
diff --git a/crates/mitex-parser/src/lib.rs b/crates/mitex-parser/src/lib.rs
index ea46a2c..d3bfb7e 100644
--- a/crates/mitex-parser/src/lib.rs
+++ b/crates/mitex-parser/src/lib.rs
@@ -16,10 +16,15 @@
 //! The untyped syntax node can also convert to [`rowan::cursor::SyntaxNode`] to
 //! modify the AST syntactically.
 
+// `mitex_sim` is a custom cfg for deterministic simulation
+#![allow(unexpected_cfgs)]
+
 mod arg_match;
 mod parser;
 pub mod syntax;
 
+#[cfg(mitex_sim)]
+pub use mitex_lexer::sim;
 pub use mitex_spec as spec;
 pub use spec::preludes::command as command_preludes;
 pub use spec::*;
diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..379ccf9 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -368,6 +368,8 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     ///
     /// Returns whether the item is attachable
     fn content(&mut self, not_prefer_single_char: bool) -> bool {
+        #[cfg(mitex_sim)]
+        crate::sim::point(crate::sim::Site::ParseItem);
         let Some(c) = self.peek() else {
             return true;
         };
diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..8e19f9f 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -131,6 +131,9 @@ impl Converter {
     ) -> Result<(), ConvertError> {
         use LatexSyntaxKind::*;
 
+        #[cfg(mitex_sim)]
+        mitex_parser::sim::point(mitex_parser::sim::Site::ConvertItem);
+
         match elem.kind() {
             TokenWhiteSpace => {}
             _ => {
diff --git a/crates/mitex/src/lib.rs b/crates/mitex/src/lib.rs
index fdb953e..9d8eeb6 100644
--- a/crates/mitex/src/lib.rs
+++ b/crates/mitex/src/lib.rs
@@ -1,3 +1,6 @@
+// `mitex_sim` is a custom cfg for deterministic simulation
+#![allow(unexpected_cfgs)]
+
 mod converter;
 
 pub use mitex_parser::command_preludes;
-- 
2.43.0


From 1ab9511ac712eaa02542fb42f8d532274a41da97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 02/22] fix: convert with the caller's command specification

The conversion stage looked commands up in the default specification even
when the caller passed its own, so commands which only the caller's
specification knows were parsed with it and then rejected as unknown.
---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8e19f9f..3b8a341 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1218,7 +1218,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1227,7 +1228,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From dcd670d3e6f974b8a6bdab8fba1e4fd0ae19ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 03/22] fix: name the default output of compile after the entry
 file with .typ

The option is documented as "default to entry file name with `.typ`
extension", but the default was the `.tex` name, so that
`mitex compile main.tex` replaced its own input.
---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From e9d7b6a2a517535f8331400c00cbabd2e741c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 04/22] fix: fail spec generate when the typst query fails

The exit status of `typst query` was not looked at: output of a query that
failed or was killed replaced the stored artifacts.
---
 crates/mitex-cli/src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index 1473539..2ad46b7 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -155,6 +155,13 @@ fn generate() {
         ])
         .output()
         .expect("failed to query metadata");
+    if !package_specs.status.success() {
+        panic!(
+            "failed to query metadata: {}\n{}",
+            package_specs.status,
+            String::from_utf8_lossy(&package_specs.stderr)
+        );
+    }
 
     #[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
     struct QueryItem<T> {
-- 
2.43.0


From 2fd55c8a2ab94d630ba6eda39e14054c00b03dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 05/22] fix: process the queued changes after a failed one in
 typst-dom

---
 packages/typst-dom/src/typst-doc.mts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 9ef09e7..05e7581 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -1261,13 +1261,12 @@ class TypstDocumentImpl {
           await this.processQueue(this.patchQueue.shift()!);
           this.rescale();
         }
-
-        requestAnimationFrame(doUpdate);
       } catch (e) {
         console.error(e);
-        this.isRendering = false;
-        this.postprocessChanges();
       }
+
+      // after a failure, this goes on with the changes queued behind the failed one
+      requestAnimationFrame(doUpdate);
     };
     requestAnimationFrame(doUpdate);
   }
-- 
2.43.0


From 3231e2ad35148b75784a2439f61e368a3459ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 06/22] fix: render each queued change of typst-dom with the
 current container state

---
 packages/typst-dom/src/typst-doc.mts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 05e7581..383b714 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -1187,6 +1187,8 @@ class TypstDocumentImpl {
       this.canvasRenderCToken = undefined;
       console.log("cancel canvas rendering");
     }
+    // the container may have changed since the frame began or while waiting
+    this.cachedDOMState = this.retrieveDOMState();
     let t0 = performance.now();
     let t1 = undefined;
     let t2 = undefined;
-- 
2.43.0


From 7dc0ad07b5507b7d33823ea5848d6bcd53f3eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 07/22] fix: remove every stale canvas page in typst-dom, not
 every other one

---
 packages/typst-dom/src/typst-doc.mts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 383b714..670f786 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -848,7 +848,7 @@ class TypstDocumentImpl {
     if (this.isMixinOutline && this.outline) {
       console.log("render with outline", this.outline);
       patchOutlineEntry(docDiv as any, pagesInfo, this.outline.items);
-      for (const ch of docDiv.children) {
+      for (const ch of Array.from(docDiv.children)) {
         if (!ch.classList.contains("typst-page")) {
           continue;
         }
@@ -864,7 +864,7 @@ class TypstDocumentImpl {
         pagesInfo[pageNumber].elem = ch.firstElementChild as HTMLDivElement;
       }
     } else {
-      for (const ch of docDiv.children) {
+      for (const ch of Array.from(docDiv.children)) {
         if (!ch.classList.contains("typst-page")) {
           continue;
         }
-- 
2.43.0


From 2c8c4afd65357046fb4c3487409932f5f5aeb35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 08/22] fix: let a canvas document of typst-dom render again
 after a failure

---
 packages/typst-dom/src/typst-doc.mts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 670f786..6c5dd76 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -895,8 +895,11 @@ class TypstDocumentImpl {
       throw new Error("rendering in progress, possibly a race condition");
     }
     docDiv.setAttribute("data-rendering", "true");
-    await this.updateCanvas(pagesInfo);
-    docDiv.removeAttribute("data-rendering");
+    try {
+      await this.updateCanvas(pagesInfo);
+    } finally {
+      docDiv.removeAttribute("data-rendering");
+    }
     // }));
 
     const t3 = performance.now();
-- 
2.43.0


From ac958731c087b1faf8b5f321e4d4692d069ba847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 09/22] fix: end the canvas rendering of a svg document in
 typst-dom when a page fails

---
 packages/typst-dom/src/typst-doc.mts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 6c5dd76..9c7c441 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -731,11 +731,15 @@ class TypstDocumentImpl {
         "Noo!!: canvasRenderCToken should be undefined"
       );
       const tok = (this.canvasRenderCToken = new TypstCancellationToken());
-      this.updateCanvas(pagesInCanvasMode, tok).finally(() => {
-        if (tok === this.canvasRenderCToken) {
-          this.canvasRenderCToken = undefined;
-        }
-      });
+      this.updateCanvas(pagesInCanvasMode, tok)
+        .catch((e) => console.error(e))
+        .finally(() => {
+          // also after a failure, someone may wait for the end of this rendering
+          tok.consume();
+          if (tok === this.canvasRenderCToken) {
+            this.canvasRenderCToken = undefined;
+          }
+        });
     }
 
     if (this.isContentPreview) {
-- 
2.43.0


From 4a6362032f9f371b632a59979923153083828511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 10/22] fix: forget the cache key of a cleared canvas in
 typst-dom

---
 packages/typst-dom/src/typst-doc.mts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 9c7c441..9d768a8 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -1021,6 +1021,11 @@ class TypstDocumentImpl {
         canvas.height = ph * this.pixelPerPt;
       }
 
+      if (!cached) {
+        // the canvas is blank from here on, until it is successfully rendered
+        pageInfo.elem.removeAttribute("data-cache-key");
+      }
+
       const cacheKey =
         pageInfo.elem.getAttribute("data-cache-key") || undefined;
       const result = await this.kModule.renderCanvas({
-- 
2.43.0


From 61197e9501834253465bf8da0d28d63bcb61f5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 11/22] fix: render a merged document of typst-dom on viewport
 changes even if its first rendering failed

---
 packages/typst-dom/src/typst-doc.mts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 9d768a8..4fb2892 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -1214,13 +1214,14 @@ class TypstDocumentImpl {
         }
         // todo: remove type cast
         this.kModule.merge_delta(svgUpdateEvent[1] as unknown as Uint8Array);
+        // there is a document from here on, even if rendering it fails this time
+        this.moduleInitialized = true;
 
         t1 = performance.now();
         // todo: trigger viewport change once
         const [_t2, _t3] = await this.toggleViewportChange();
         t2 = _t2;
         t3 = _t3;
-        this.moduleInitialized = true;
         break;
       }
       case "viewport-change": {
-- 
2.43.0


From bdae514d259426be74eedf126797a4f1425c241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 12/22] fix: resize the frame of a reused canvas page in
 typst-dom

---
 packages/typst-dom/src/typst-doc.mts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 4fb2892..5cd729e 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -721,6 +721,9 @@ class TypstDocumentImpl {
           if (pageInfo) {
             pageInfo.container = canvasDiv as HTMLDivElement;
             pageInfo.elem = canvasDiv.firstElementChild as HTMLDivElement;
+            // the page may have another size now
+            ch.setAttribute("width", `${pageInfo.width}`);
+            ch.setAttribute("height", `${pageInfo.height}`);
           }
         }
       }
-- 
2.43.0


From c2a8c1744d1082eccfcd4f1da0040eb2074f829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 13/22] fix: keep the titles of typst-dom's outline clickable
 as its entries change

---
 packages/typst-dom/src/typst-outline.mts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/typst-dom/src/typst-outline.mts b/packages/typst-dom/src/typst-outline.mts
index 53487a4..e2d7494 100644
--- a/packages/typst-dom/src/typst-outline.mts
+++ b/packages/typst-dom/src/typst-outline.mts
@@ -194,9 +194,11 @@ export function patchOutlineEntry(
       titleContentSpan.style.textDecoration = "underline";
       titleContentSpan.style.cursor = "pointer";
 
-      const c = elem.container;
+      // the title may be moved into a reused outline node
       titleContentSpan.addEventListener("click", () => {
-        c.classList.toggle("collapsed");
+        titleContentSpan
+          .closest(".typst-outline")
+          ?.classList.toggle("collapsed");
       });
     }
   }
@@ -249,6 +251,10 @@ function reuseOrPatchOutlineElem(
   } else if (isPageElem) {
     // will never dive into the internals of a canvas element
     return false;
+  } else if (prev.classList.contains("typst-outline-title")) {
+    // takes the new title, which may have become (not) clickable
+    prev.replaceChildren(...next.childNodes);
+    return false;
   }
 
   /// Patch `<div>` children, will call `reuseOrPatchElem` again.
-- 
2.43.0


From ad2c9fe70e3c0b4f24001bdd5eaa38f0c90f54f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 14/22] fix: scale a reused canvas page of typst-dom whose size
 changed

---
 packages/typst-dom/src/typst-doc.mts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 5cd729e..b42c2e0 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -372,9 +372,16 @@ class TypstDocumentImpl {
       // apply scale
       const appliedScale = (scale / this.pixelPerPt).toString();
 
+      // a reused page may have got another size at the same scale
+      const appliedSize = `${canvasWidth}x${canvasHeight}`;
+
       // set data applied width and height to memoize change
-      if (elem.getAttribute("data-applied-scale") !== appliedScale) {
+      if (
+        elem.getAttribute("data-applied-scale") !== appliedScale ||
+        elem.getAttribute("data-applied-size") !== appliedSize
+      ) {
         elem.setAttribute("data-applied-scale", appliedScale);
+        elem.setAttribute("data-applied-size", appliedSize);
         // apply translate
         const scaledWidth = Math.ceil(canvasWidth * scale);
         const scaledHeight = Math.ceil(canvasHeight * scale);
-- 
2.43.0


From a32efd8a0c2547b8df206106a62e1a1cb6ad10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 15/22] fix: converter page stuck at loading fonts when the
 typst script arrives late

---
 packages/mitex-web/src/main.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/mitex-web/src/main.ts b/packages/mitex-web/src/main.ts
index 15b7232..0e38252 100644
--- a/packages/mitex-web/src/main.ts
+++ b/packages/mitex-web/src/main.ts
@@ -20,6 +20,8 @@ const App = () => {
   let compilerLoaded = van.state(false);
   let fontLoaded = van.state(false);
   window.$typst$script.then(async () => {
+    $typst = window.$typst;
+
     compilerLoaded.val = true;
     await $typst.svg({ mainContent: "" });
     fontLoaded.val = true;
-- 
2.43.0


From 91e7874b8b7b0922e9ff81e0bafd585105867180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 16/22] fix: show a loaded file in the editor whatever it shows
 now

---
 .../mitex-web/src/tools/underleaf-editor.ts   | 35 ++++++++-----------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/packages/mitex-web/src/tools/underleaf-editor.ts b/packages/mitex-web/src/tools/underleaf-editor.ts
index e2c05f4..55e7772 100644
--- a/packages/mitex-web/src/tools/underleaf-editor.ts
+++ b/packages/mitex-web/src/tools/underleaf-editor.ts
@@ -2,11 +2,7 @@
 import van, { State } from "vanjs-core";
 const { div } = van.tags;
 
-import {
-  ChangeSet,
-  EditorState,
-  Range as EditorRange,
-} from "@codemirror/state";
+import { EditorState, Range as EditorRange } from "@codemirror/state";
 import { EditorView } from "@codemirror/view";
 import {
   syntaxHighlighting,
@@ -117,27 +113,24 @@ export const Editor = (
     });
   });
 
-  const vs = van.derive(() => {
-    // console.log("focusFile.val", changeFocusFile.val);
-    const path = changeFocusFile.val?.path;
-    if (!changeFocusFile.val || !path) {
-      return "";
-    }
+  const textOf = ({ path, data }: FsItemState) => {
     if (path.endsWith(".png")) {
       return `Binary file ${path} is not shown`;
     }
-    const data = changeFocusFile.val.data.val;
-    return data ? decoder.decode(data) : "";
-  });
+    return data.val ? decoder.decode(data.val) : "";
+  };
+  /// Shows each file that gets the focus, even if its text is the one shown before
   van.derive(() => {
+    // console.log("focusFile.val", changeFocusFile.val);
+    if (!changeFocusFile.val) {
+      return;
+    }
     view.dispatch({
-      changes: [
-        ChangeSet.empty(0),
-        {
-          from: 0,
-          insert: vs.val,
-        },
-      ],
+      changes: {
+        from: 0,
+        to: view.state.doc.length,
+        insert: textOf(changeFocusFile.val),
+      },
     });
   });
 
-- 
2.43.0


From 9d27fbf2d298830519364c25b45ca1817d4181ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:10 +0000
Subject: [PATCH 17/22] fix: an older save of the project may not replace a
 newer one

---
 packages/mitex-web/src/tools/underleaf-fs.ts | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/mitex-web/src/tools/underleaf-fs.ts b/packages/mitex-web/src/tools/underleaf-fs.ts
index 5d86523..8456ee5 100644
--- a/packages/mitex-web/src/tools/underleaf-fs.ts
+++ b/packages/mitex-web/src/tools/underleaf-fs.ts
@@ -76,12 +76,20 @@ class FsState {
     public fsList: FsItemState[]
   ) {}
 
+  /// Number of saves started, and the latest one that was written
+  static started = 0;
+  static written = 0;
+
   async save() {
     console.log("save local edition state");
-    localStorage.setItem(
-      "fsState",
-      JSON.stringify(await Promise.all(this.fsList.map((t) => t.serialize())))
-    );
+    const order = ++FsState.started;
+    const files = await Promise.all(this.fsList.map((t) => t.serialize()));
+    /// A later save may have been faster, and must not be overwritten
+    if (order < FsState.written) {
+      return;
+    }
+    localStorage.setItem("fsState", JSON.stringify(files));
+    FsState.written = order;
   }
 
   static readonly load = async () => {
-- 
2.43.0


From 597ba16653508626d751e83fd66966dbc5a9bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:40 +0000
Subject: [PATCH 18/22] fix: compile a reloaded project whose shown file is
 empty

Replacing an empty text by an empty text is no change for the editor, so
a file that was empty when the project was reloaded was neither mapped to
the compiler again nor compiled with the files that came with it.
---
 .../mitex-web/src/tools/underleaf-editor.ts   | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/packages/mitex-web/src/tools/underleaf-editor.ts b/packages/mitex-web/src/tools/underleaf-editor.ts
index 55e7772..9b06bc4 100644
--- a/packages/mitex-web/src/tools/underleaf-editor.ts
+++ b/packages/mitex-web/src/tools/underleaf-editor.ts
@@ -86,14 +86,19 @@ export const Editor = (
   changeFocusFile: State<FsItemState | undefined>,
   focusFile: State<FsItemState | undefined>
 ) => {
-  let updateListenerExtension = EditorView.updateListener.of(async (update) => {
+  const store = async (text: string) => {
     const f = focusFile.val;
-    if (update.docChanged && f) {
-      const c = encoder.encode(update.state.doc.toString());
+    if (f) {
+      const c = encoder.encode(text);
       await window.$typst?.mapShadow(f.path, c);
       f.data.val = c;
       // console.log("update", f.path, decoder.decode(c));
     }
+  };
+  let updateListenerExtension = EditorView.updateListener.of(async (update) => {
+    if (update.docChanged) {
+      await store(update.state.doc.toString());
+    }
   });
 
   const state = EditorState.create({
@@ -125,13 +130,13 @@ export const Editor = (
     if (!changeFocusFile.val) {
       return;
     }
-    view.dispatch({
-      changes: {
-        from: 0,
-        to: view.state.doc.length,
-        insert: textOf(changeFocusFile.val),
-      },
-    });
+    const to = view.state.doc.length;
+    const insert = textOf(changeFocusFile.val);
+    view.dispatch({ changes: { from: 0, to, insert } });
+    /// No change of the document, but the files that came with it are new
+    if (to === 0 && insert === "") {
+      store(insert);
+    }
   });
 
   return div({ class: "mitex-input" }, view.dom);
-- 
2.43.0


From 3afb3c0e87ee0ad2ad540c9e4a7023d025d368a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 19/22] fix: write the JSON artifacts of a specification in a
 fixed order

The commands are kept in a hash map, whose order depends on the hash seeds
of the process, so the default.json and packages.json artifacts differed
from one 'mitex spec generate' to the next for the same specification.
---
 crates/mitex-spec/src/query.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-spec/src/query.rs b/crates/mitex-spec/src/query.rs
index 91cc9df..93361e5 100644
--- a/crates/mitex-spec/src/query.rs
+++ b/crates/mitex-spec/src/query.rs
@@ -1,9 +1,12 @@
 //! The query module contains the data structures that are used by `typst query
 //! <mitex-packages>`
 
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    sync::Arc,
+};
 
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Serialize, Serializer};
 
 use crate::{CmdShape, ContextFeature, EnvShape};
 
@@ -136,9 +139,19 @@ impl From<CommandSpecItem> for crate::CommandSpecItem {
 #[derive(Default, Debug, Clone, Serialize, Deserialize)]
 pub struct CommandSpecRepr {
     /// The command specifications.
+    #[serde(serialize_with = "serialize_by_name")]
     pub commands: HashMap<String, CommandSpecItem>,
 }
 
+/// Serializes the commands in the order of their names, so that the result does
+/// not depend on the hash seeds of the process.
+fn serialize_by_name<S: Serializer>(
+    commands: &HashMap<String, CommandSpecItem>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(commands.iter().collect::<BTreeMap<_, _>>())
+}
+
 impl From<CommandSpecRepr> for crate::CommandSpec {
     fn from(repr: CommandSpecRepr) -> Self {
         Self(Arc::new(repr.into()))
-- 
2.43.0


From 25748fe6714f12174cddbca19ca4dcb559bcb90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:58 +0000
Subject: [PATCH 20/22] fix: show the preview cursor on its own slide

In slide mode the cursor of page 1 was drawn on every slide, and the cursor
of any other page on none.
---
 packages/typst-dom/src/typst-doc.mts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index b42c2e0..caa4401 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -684,7 +684,10 @@ class TypstDocumentImpl {
 
         pageHeightEnd += fontSize;
       } else {
-        if (this.cursorPosition && this.cursorPosition[0] === i + 1) {
+        // in slide mode, the only page here is the current slide
+        const pageNumber =
+          mode === PreviewMode.Slide ? this.partialRenderPage + 1 : i + 1;
+        if (this.cursorPosition && this.cursorPosition[0] === pageNumber) {
           const [_, x, y] = this.cursorPosition;
           const cursor = document.createElementNS(
             "http://www.w3.org/2000/svg",
-- 
2.43.0


From 6e20c55d06a13108109c1902621fcfb39c02b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:36 +0000
Subject: [PATCH 21/22] fix: never take the input file for the default output

'mitex compile notes.typ' wrote its result over notes.typ.
---
 crates/mitex-cli/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index e51b134..e50ec92 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -236,6 +236,12 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
                     )
                 })?
                 .clone_into(&mut args.output);
+            if args.output == args.input {
+                Err(clap::Error::raw(
+                    clap::error::ErrorKind::ValueValidation,
+                    "Output file is required, the default one is the input file.",
+                ))?;
+            }
         }
     }
 
-- 
2.43.0


From 33d167ee299435e7d6ec583724c076efd8df5289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:48 +0000
Subject: [PATCH 22/22] fix: a failed query of the package specifications fails
 the build

---
 crates/mitex-spec-gen/build.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/mitex-spec-gen/build.rs b/crates/mitex-spec-gen/build.rs
index 7b4934d..80a6017 100644
--- a/crates/mitex-spec-gen/build.rs
+++ b/crates/mitex-spec-gen/build.rs
@@ -100,15 +100,20 @@ fn generate() -> anyhow::Result<()> {
     type Json<T> = Vec<QueryItem<T>>;
 
     let mut json_spec: mitex_spec::JsonCommandSpec = Default::default();
-    let json_packages: Json<mitex_spec::query::PackagesVec> = serde_json::from_slice(
-        &package_specs
-            .output()
-            .with_context(|| "failed to query metadata")?
-            .stdout,
-    )
-    .context(format!(
-        "failed to parse package specs cmd: {package_specs:?}"
-    ))?;
+    let output = package_specs
+        .output()
+        .with_context(|| "failed to query metadata")?;
+    if !output.status.success() {
+        anyhow::bail!(
+            "failed to query metadata: {}\n{}",
+            output.status,
+            String::from_utf8_lossy(&output.stderr)
+        );
+    }
+    let json_packages: Json<mitex_spec::query::PackagesVec> =
+        serde_json::from_slice(&output.stdout).context(format!(
+            "failed to parse package specs cmd: {package_specs:?}"
+        ))?;
     if json_packages.is_empty() {
         panic!("no package found");
     }
-- 
2.43.0

