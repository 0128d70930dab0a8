From 724f6da0fc65e4ad5ac0c0e0e5796f3f6c0d1259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:07 +0000
Subject: [PATCH 01/95] fix: apply the first scroll action's easing

The executor's initial capture has a zero-length slot, so the composer's first
two keyframe stops coincide at 0%. De-duplication kept the first, which carries
no easing, and dropped the stop holding the first action's timing function.
---
 src/scroll/composer.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 13f692b..5683664 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -437,10 +437,14 @@ function composeScrollSvgBody(
   // `stops` from `cycleStops` rather than rebuilding the same per-segment loop.
   const stops: Array<{ pct: number; offset: number; tf: string | null }> =
     cycleStops.map((s, k) => ({ ...s, tf: cssTimingFunction(segments[k]?.easing) }));
-  // Dedupe trivially equal stops to keep CSS small (pct + offset only — a stop
-  // with the same position/time as its predecessor is a zero-motion interval
-  // whose timing-function is moot).
-  const dedupedStops = stops.filter((s, i, arr) => i === 0 || !(s.pct === arr[i - 1].pct && s.offset === arr[i - 1].offset));
+  // Dedupe trivially equal stops to keep CSS small (pct + offset only — the
+  // interval between two equal stops has no motion, so its timing-function is
+  // moot).
+  // Of a run of equal stops the LAST is kept: its timing-function is the one that
+  // governs the motion that follows. (The executor's initial capture always has a
+  // zero-length slot, so the first two stops coincide at 0% and only the second
+  // carries the first scroll action's easing.)
+  const dedupedStops = stops.filter((s, i, arr) => i === arr.length - 1 || !(s.pct === arr[i + 1].pct && s.offset === arr[i + 1].offset));
   const translateFn = axis === "x" ? "X" : "Y";
   const keyframes = dedupedStops
     .map((s) =>
-- 
2.43.0


From dfa48817fc4f46a85814eb0b761bfa1f9a222406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:15 +0000
Subject: [PATCH 02/95] fix: hold the scroll position through a pause

A pause during which nothing changes adds no capture, so it appears as a gap
between two segments' time slots. The composer only anchored slot ends, which
stretched the next scroll over the pause instead of waiting.
---
 src/scroll/composer.ts | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 5683664..dd17ed2 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -217,6 +217,14 @@ export function composeScrollSvg(
   }
 }
 
+/** One anchor of the scroll cycle: the position at a time-percent, and the easing
+ *  of the interval that starts there. */
+interface ScrollCycleStop {
+  pct: number;
+  offset: number;
+  easing: Easing | undefined;
+}
+
 /**
  * Per-segment visibility-window math (DM-642), extracted from
  * `composeScrollSvgBody` (DM-1458). Builds the cycle's `(time-percent,
@@ -231,14 +239,20 @@ function buildScrollVisibility(
   segOffsets: number[],
   totalMs: number,
 ): {
-  cycleStops: Array<{ pct: number; offset: number }>;
+  cycleStops: ScrollCycleStop[];
   pctAtScrollY: (targetY: number, mode: "first" | "last") => number;
 } {
-  const cycleStops: Array<{ pct: number; offset: number }> = [];
-  cycleStops.push({ pct: 0, offset: segOffsets[0] });
+  const cycleStops: ScrollCycleStop[] = [];
+  cycleStops.push({ pct: 0, offset: segOffsets[0], easing: segments[0].easing });
   for (let i = 0; i < segments.length; i++) {
+    // A pause that changed nothing on the page produces no capture of its own, so
+    // it shows up as a gap before this segment's slot: hold the previous position
+    // until the slot begins instead of stretching the motion across the gap.
+    if (i > 0 && segments[i].segmentStartMs > segments[i - 1].segmentEndMs) {
+      cycleStops.push({ pct: (segments[i].segmentStartMs / totalMs) * 100, offset: segOffsets[i - 1], easing: segments[i].easing });
+    }
     const endPct = (segments[i].segmentEndMs / totalMs) * 100;
-    cycleStops.push({ pct: endPct, offset: segOffsets[i] });
+    cycleStops.push({ pct: endPct, offset: segOffsets[i], easing: segments[i + 1]?.easing });
   }
   function pctAtScrollY(targetY: number, mode: "first" | "last"): number {
     // Linear interpolation across cycleStops to find when scroll-y crosses
@@ -428,15 +442,10 @@ function composeScrollSvgBody(
   // `null` (absent or `linear`) emits nothing, so patterns without an
   // `[easing]` suffix produce byte-identical CSS and animate `linear` (the
   // animation-level default below).
-  // DM-1436: every stop's pct + offset is identical to `cycleStops` (built above
-  // for the visibility interpolation) — both walk the segments with the same
-  // `segmentEndMs/totalMs` pct and the same `scrollY/X - minPos` offset. The only
-  // extra here is the per-stop timing-function: `stops[k]` carries the easing of
-  // the interval that STARTS at it, i.e. `segments[k]` (the initial stop k=0 takes
-  // segments[0]; the trailing stop takes the absent segments[n] → null). So derive
-  // `stops` from `cycleStops` rather than rebuilding the same per-segment loop.
+  // DM-1436: the stops are `cycleStops` (built above for the visibility
+  // interpolation) with each stop's easing mapped to CSS.
   const stops: Array<{ pct: number; offset: number; tf: string | null }> =
-    cycleStops.map((s, k) => ({ ...s, tf: cssTimingFunction(segments[k]?.easing) }));
+    cycleStops.map((s) => ({ pct: s.pct, offset: s.offset, tf: cssTimingFunction(s.easing) }));
   // Dedupe trivially equal stops to keep CSS small (pct + offset only — the
   // interval between two equal stops has no motion, so its timing-function is
   // moot).
-- 
2.43.0


From fea5158e59ab2e6eee9d2ae828010567d405195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:21 +0000
Subject: [PATCH 03/95] fix: keep scroll content in view visible when the page
 scrolls back

---
 src/scroll/composer.ts | 49 ++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index dd17ed2..543504d 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -229,9 +229,9 @@ interface ScrollCycleStop {
  * Per-segment visibility-window math (DM-642), extracted from
  * `composeScrollSvgBody` (DM-1458). Builds the cycle's `(time-percent,
  * position-offset)` stops and returns a resolver that linearly interpolates them
- * to find the cycle-percent at which the composite's scroll position crosses a
- * target offset — `"first"` for the entering crossing, `"last"` for the leaving
- * crossing, both clamped to `[0, 100]`. `cycleStops` is returned too because the
+ * to find the cycle-percents between which the composite's scroll position is
+ * inside a range of offsets (first entry to last exit, both clamped to
+ * `[0, 100]`). `cycleStops` is returned too because the
  * keyframe `stops` derive from the same data (DM-1436).
  */
 function buildScrollVisibility(
@@ -240,7 +240,7 @@ function buildScrollVisibility(
   totalMs: number,
 ): {
   cycleStops: ScrollCycleStop[];
-  pctAtScrollY: (targetY: number, mode: "first" | "last") => number;
+  pctWindow: (from: number, to: number) => { enterPct: number; leavePct: number };
 } {
   const cycleStops: ScrollCycleStop[] = [];
   cycleStops.push({ pct: 0, offset: segOffsets[0], easing: segments[0].easing });
@@ -254,27 +254,31 @@ function buildScrollVisibility(
     const endPct = (segments[i].segmentEndMs / totalMs) * 100;
     cycleStops.push({ pct: endPct, offset: segOffsets[i], easing: segments[i + 1]?.easing });
   }
-  function pctAtScrollY(targetY: number, mode: "first" | "last"): number {
-    // Linear interpolation across cycleStops to find when scroll-y crosses
-    // targetY. With monotonic ascending scroll-y, "first" returns the first
-    // crossing (entering); "last" returns the last crossing (leaving).
-    // Out-of-range clamps to 0 / 100.
-    let hit = mode === "first" ? Number.POSITIVE_INFINITY : Number.NEGATIVE_INFINITY;
+  function pctWindow(from: number, to: number): { enterPct: number; leavePct: number } {
+    // Linear interpolation across cycleStops. The window is the hull of all the
+    // time the scroll position spends inside [from, to], whichever way the page
+    // scrolls — a position can be entered from below or from above, and left and
+    // re-entered. Never being inside leaves the segment visible throughout.
+    let enterPct = Number.POSITIVE_INFINITY;
+    let leavePct = Number.NEGATIVE_INFINITY;
     for (let s = 0; s + 1 < cycleStops.length; s++) {
       const a = cycleStops[s], b = cycleStops[s + 1];
-      const lo = Math.min(a.offset, b.offset);
-      const hi = Math.max(a.offset, b.offset);
-      if (targetY < lo - 0.001 || targetY > hi + 0.001) continue;
+      if (Math.max(a.offset, b.offset) < from - 0.001 || Math.min(a.offset, b.offset) > to + 0.001) continue;
       const span = b.offset - a.offset;
-      const t = span === 0 ? 0 : (targetY - a.offset) / span;
-      const pct = a.pct + (b.pct - a.pct) * t;
-      if (mode === "first" && pct < hit) hit = pct;
-      if (mode === "last" && pct > hit) hit = pct;
+      for (const edge of [a.offset, b.offset]) {
+        const t = span === 0 ? 0 : (Math.max(from, Math.min(to, edge)) - a.offset) / span;
+        const pct = a.pct + (b.pct - a.pct) * t;
+        enterPct = Math.min(enterPct, pct);
+        leavePct = Math.max(leavePct, span === 0 ? b.pct : pct);
+      }
     }
-    if (!isFinite(hit)) return mode === "first" ? 0 : 100;
-    return Math.max(0, Math.min(100, hit));
+    // The last position holds to the end of the cycle.
+    const lastOffset = cycleStops[cycleStops.length - 1].offset;
+    if (lastOffset >= from && lastOffset <= to) leavePct = 100;
+    if (enterPct > leavePct) return { enterPct: 0, leavePct: 100 };
+    return { enterPct: Math.max(0, enterPct), leavePct: Math.min(100, leavePct) };
   }
-  return { cycleStops, pctAtScrollY };
+  return { cycleStops, pctWindow };
 }
 
 /**
@@ -355,7 +359,7 @@ function composeScrollSvgBody(
   const segOffsets: number[] = segments.map((s) =>
     (axis === "y" ? s.scrollY : s.scrollX) - minPos,
   );
-  const { cycleStops, pctAtScrollY } = buildScrollVisibility(segments, segOffsets, totalMs);
+  const { cycleStops, pctWindow } = buildScrollVisibility(segments, segOffsets, totalMs);
 
   // ── Render each capture's content at its position offset ──
   const captureGroups: string[] = [];
@@ -390,8 +394,7 @@ function composeScrollSvgBody(
     // acceptable on every device we've profiled.
     const dim = axis === "y" ? VH : W;
     const rasterBuffer = dim;
-    const enterPct = pctAtScrollY(offset - dim - rasterBuffer, "first");
-    const leavePct = pctAtScrollY(offset + dim + rasterBuffer, "last");
+    const { enterPct, leavePct } = pctWindow(offset - dim - rasterBuffer, offset + dim + rasterBuffer);
     const fullyVisible = enterPct <= 0 && leavePct >= 100;
     if (fullyVisible) {
       captureGroups.push(
-- 
2.43.0


From 71388d689a79bbc9df0a5dba157701bd7de842ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 04/95] fix: play the pause that ends a scroll pattern

---
 src/scroll/composer.ts | 12 +++++++++---
 src/scroll/executor.ts |  6 ++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 543504d..a2ac8ed 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -140,7 +140,8 @@ function buildStickyOverlays(
   for (let i = 0; i < stickyOverlays.length; i++) {
     const o: StickyOverlay = stickyOverlays[i];
     const visStartPct = (segments[o.firstSegmentIdx].segmentStartMs / totalMs) * 100;
-    const visEndPct = (segments[o.lastSegmentIdx].segmentEndMs / totalMs) * 100;
+    // Stuck through a pause too: until the next segment's slot begins.
+    const visEndPct = ((segments[o.lastSegmentIdx + 1]?.segmentStartMs ?? totalMs) / totalMs) * 100;
     const alwaysVisible = visStartPct <= 0 && visEndPct >= 100;
     const inner = elementTreeToSvgInner([o.subtree], W, VH, `stk${i}-`, true, hiDPIFactor, false);
     if (alwaysVisible) {
@@ -254,6 +255,9 @@ function buildScrollVisibility(
     const endPct = (segments[i].segmentEndMs / totalMs) * 100;
     cycleStops.push({ pct: endPct, offset: segOffsets[i], easing: segments[i + 1]?.easing });
   }
+  if (segments[segments.length - 1].holdUntilMs != null) {
+    cycleStops.push({ pct: 100, offset: segOffsets[segments.length - 1], easing: undefined });
+  }
   function pctWindow(from: number, to: number): { enterPct: number; leavePct: number } {
     // Linear interpolation across cycleStops. The window is the hull of all the
     // time the scroll position spends inside [from, to], whichever way the page
@@ -295,10 +299,12 @@ function composeScrollSvgBody(
   const { axis, W, VH, bg, paintBg, hiDPIFactor, chunkSize } = ctx;
 
   // ── Total scene duration ──
-  // The last segment's endMs is the cycle length. For a single-segment input,
+  // The last segment's endMs (or the end of the pause that follows it) is the
+  // cycle length. For a single-segment input,
   // the scene is effectively static — emit a 1 s loop so the SVG renders
   // sensibly without a degenerate 0 s animation.
-  const totalMs = Math.max(segments[segments.length - 1].segmentEndMs, 1);
+  const lastSegment = segments[segments.length - 1];
+  const totalMs = Math.max(lastSegment.holdUntilMs ?? lastSegment.segmentEndMs, 1);
   const totalSec = totalMs / 1000;
 
   // ── Compute composite dimensions ──
diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 47692bc..f7c80d0 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -88,6 +88,10 @@ export interface ScrollSegmentCapture {
    *  uses its `linear` default. The initial capture and pause-captures (no
    *  motion) carry none. */
   easing?: Easing;
+  /** Set on the LAST capture when the pattern ends in a pause that changed
+   *  nothing on the page: the scene time (ms) until which its position is held
+   *  before the cycle restarts. */
+  holdUntilMs?: number;
 }
 
 const DEFAULT_SPEED_PX_PER_SEC = 1500;
@@ -454,6 +458,8 @@ export async function executeScrollPattern(
   };
 
   await walkPattern(pattern, pageQuery, defaultSpeed, runOp, checkTimeout, log);
+  const last = captures[captures.length - 1];
+  if (sceneTime > last.segmentEndMs) last.holdUntilMs = sceneTime;
   return captures;
 }
 
-- 
2.43.0


From cb716fa862e50387f913563aae7735351935ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 05/95] fix: keep rectangle corners exact in angled wipes

---
 src/animation/animator.ts | 51 ++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index f3a4ddb..62f3856 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -441,40 +441,35 @@ type SlideEnter =
  *  sweep. `wipe` stays the linear inset. */
 type RevealShape = "wipe" | "iris" | "clock";
 
-const WIPE_POLYGON_VERTICES = 8;
-
-/** A rectangular half-plane reveal sampled to a fixed vertex count so angled
- * wipe polygons remain CSS-interpolable on every supported engine. */
+/** A rectangular half-plane reveal with a fixed vertex count (two per rectangle
+ * edge) so angled wipe polygons remain CSS-interpolable on every supported engine.
+ * Each edge contributes the ends of its revealed part; an edge the wipe has not
+ * reached contributes the point where the wipe front is heading for it, so every
+ * vertex travels along the rectangle's outline and its corners stay exact. */
 export function linearWipeClip(f: number, width: number, height: number, angleDeg: number): string {
   const rad = angleDeg * Math.PI / 180;
   const dx = Math.cos(rad), dy = Math.sin(rad);
   const rect = [{ x: 0, y: 0 }, { x: width, y: 0 }, { x: width, y: height }, { x: 0, y: height }];
-  const projection = (p: { x: number; y: number }) => p.x * dx + p.y * dy;
-  const values = rect.map(projection);
+  const values = rect.map((p) => p.x * dx + p.y * dy);
   const lo = Math.min(...values), hi = Math.max(...values);
   const threshold = lo + Math.max(0, Math.min(1, f)) * (hi - lo);
-  const clipped: typeof rect = [];
-  for (let i = 0; i < rect.length; i++) {
-    const a = rect[i], b = rect[(i + 1) % rect.length];
-    const pa = projection(a), pb = projection(b);
-    const aIn = pa <= threshold + 1e-7, bIn = pb <= threshold + 1e-7;
-    if (aIn) clipped.push(a);
-    if (aIn !== bIn) {
-      const t = (threshold - pa) / (pb - pa);
-      clipped.push({ x: a.x + (b.x - a.x) * t, y: a.y + (b.y - a.y) * t });
-    }
-  }
-  const source = clipped.length > 0 ? clipped : [rect[values.indexOf(lo)]];
-  const lengths = source.map((p, i) => Math.hypot(source[(i + 1) % source.length].x - p.x, source[(i + 1) % source.length].y - p.y));
-  const perimeter = lengths.reduce((sum, n) => sum + n, 0);
-  const points = Array.from({ length: WIPE_POLYGON_VERTICES }, (_, i) => {
-    if (perimeter < 1e-7) return source[0];
-    let distance = perimeter * i / WIPE_POLYGON_VERTICES;
-    let edge = 0;
-    while (edge < lengths.length - 1 && distance > lengths[edge]) distance -= lengths[edge++];
-    const a = source[edge], b = source[(edge + 1) % source.length];
-    const t = lengths[edge] < 1e-7 ? 0 : distance / lengths[edge];
-    return { x: a.x + (b.x - a.x) * t, y: a.y + (b.y - a.y) * t };
+  const inside = (k: number): boolean => values[k] <= threshold + 1e-7;
+  const front = (a: number, b: number): { x: number; y: number } => {
+    const t = (threshold - values[a]) / (values[b] - values[a]);
+    return { x: rect[a].x + (rect[b].x - rect[a].x) * t, y: rect[a].y + (rect[b].y - rect[a].y) * t };
+  };
+  // The wipe-front point met when walking the outline from an unrevealed corner.
+  const ride = (corner: number, step: 1 | 3): { x: number; y: number } => {
+    const next = (corner + step) % 4;
+    return inside(next) ? front(next, corner) : ride(next, step);
+  };
+  const points = rect.flatMap((_, a) => {
+    const b = (a + 1) % 4;
+    if (inside(a)) return [rect[a], inside(b) ? rect[b] : front(a, b)];
+    if (inside(b)) return [front(b, a), rect[b]];
+    if (Math.abs(values[a] - values[b]) < 1e-7) return [ride(a, 3), ride(b, 1)];
+    const at = values[a] < values[b] ? ride(a, 3) : ride(b, 1);
+    return [at, at];
   });
   const n = (value: number) => Number(value.toFixed(3));
   return `polygon(${points.map((p) => `${n(p.x)}px ${n(p.y)}px`).join(", ")})`;
-- 
2.43.0


From c18bf37f9d9e185791f7f134fcd6121df2747b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 06/95] fix: stop a looping last frame fading through its whole
 hold

---
 src/animation/animator.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 62f3856..3817064 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1008,7 +1008,7 @@ function emitComposedFrame(
     opacityStops.push(`100% { opacity: ${exit.opacityTo ?? 0}; }`);
   } else {
     // Slide / reveal-hold / cut exit: hold solid to the trans end, then hard-cut.
-    opacityStops.push(`${transNum.toFixed(3)}% { opacity: 1; }`);
+    opacityStops.push(`${lastOnPct(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 1; }`);
     opacityStops.push(`${padAfter(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 0; }`);
     opacityStops.push(`100% { opacity: 0; }`);
   }
@@ -2676,6 +2676,13 @@ function pct(ms: number, total: number): string {
   return `${((ms / total) * 100).toFixed(2)}%`;
 }
 
+/** Where a track that hard-cuts off at `endPct` last holds: `endPct` itself, or just
+ *  before 100% when the window closes the loop — there the "off" stop is the 100%
+ *  stop, and sharing its offset would turn the hold into a slow fade. */
+function lastOnPct(endPct: number, epsilon: number, precision: number): string {
+  return Math.min(endPct, 100 - epsilon).toFixed(precision);
+}
+
 function pctNum(ms: number, total: number): number {
   return (ms / total) * 100;
 }
@@ -2812,7 +2819,7 @@ function slideKeyframes(
     }
     @keyframes fv-${i} {
       ${fvEnter}
-      ${transEndPct} { opacity: 1; }
+      ${lastOnPct(parseFloat(transEndPct), KEYFRAME_EPSILON.slide, 2)}% { opacity: 1; }
       ${padAfter(parseFloat(transEndPct), KEYFRAME_EPSILON.slide, 2)}%, 100% { opacity: 0; }
     }${buildDisplayKeyframes(`fd-${i}`, visStart, visEnd, totalSec)}
     .f-${i} { animation: fv-${i} ${totalSec.toFixed(2)}s infinite, fd-${i} ${totalSec.toFixed(2)}s infinite step-end; }
-- 
2.43.0


From 08256cb69aa45de6b817557c1c339664efad4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 07/95] fix: dissolve a custom exit that also translates

---
 src/animation/animator.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 3817064..a9835b9 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1001,11 +1001,14 @@ function emitComposedFrame(
   }
   if (holdToEnd) {
     opacityStops.push(`100% { opacity: 1; }`);
-  } else if (exit.kind === "fade") {
-    // Crossfade/zoom/shine exit: hold, then dissolve out over the trans window.
+  } else if (exit.kind === "fade" || exit.opacityTo != null) {
+    // Crossfade/zoom/shine exit, or a custom exit with an authored opacity (alone
+    // or alongside a translate): hold, then dissolve out over the trans window. A
+    // dissolve that stops short of transparent is cut off once the window closes.
     opacityStops.push(`${holdNum.toFixed(3)}% { opacity: 1; }`);
-    opacityStops.push(`${transNum.toFixed(3)}% { opacity: ${exit.opacityTo ?? 0}; }`);
-    opacityStops.push(`100% { opacity: ${exit.opacityTo ?? 0}; }`);
+    opacityStops.push(`${lastOnPct(transNum, (exit.opacityTo ?? 0) > 0 ? KEYFRAME_EPSILON.cull : 0, 3)}% { opacity: ${exit.opacityTo ?? 0}; }`);
+    if ((exit.opacityTo ?? 0) > 0) opacityStops.push(`${padAfter(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 0; }`);
+    opacityStops.push(`100% { opacity: 0; }`);
   } else {
     // Slide / reveal-hold / cut exit: hold solid to the trans end, then hard-cut.
     opacityStops.push(`${lastOnPct(transNum, KEYFRAME_EPSILON.cull, 3)}% { opacity: 1; }`);
-- 
2.43.0


From aeda80ab1430ac422d8371c84df0a96225028277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 08/95] fix: animate the entrance of a frame that exits with a
 cut

---
 src/animation/animator.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index a9835b9..1a7c493 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -940,6 +940,10 @@ function composedBoundaryNeeded(entrance: EntranceKind, exit: ExitKind): boolean
   // A dolly ENTRANCE composed with a slide EXIT: zoom → push/scroll. The old
   // slide branch faded (dropping the scale dolly).
   if (entrance === "dolly" && exit === "slide") return true;
+  // An animated ENTRANCE composed with a CUT exit: crossfade → cut, zoom → cut,
+  // push → cut. The old cut branch stepped the frame in at its own start, leaving the
+  // outgoing frame to fade (or slide) away over nothing.
+  if ((entrance === "fade" || entrance === "dolly" || entrance === "slide") && exit === "cut") return true;
   return false;
 }
 
-- 
2.43.0


From 4263193f7492de623975e8dbc1d32708ec60668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 09/95] fix: keep a custom entrance without an authored opacity
 opaque

---
 src/animation/animator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 1a7c493..c851838 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -879,7 +879,9 @@ function classifyEntrance(plan: NormalizedTransitionPlan | undefined, prevMagicB
     const clip = plan.incoming.clip;
     const clock = resolveClockParams(clip?.startAngle, clip?.counterclockwise);
     return {
-      kind: translate != null ? "slide" : clip != null ? "reveal" : plan.incoming.scale != null ? "dolly" : "fade",
+      // Without an authored opacity the incoming layer is opaque throughout: only the
+      // preset fade / dolly entrances ramp from transparent.
+      kind: translate != null ? "slide" : clip != null ? "reveal" : plan.incoming.opacityFrom == null ? "cut" : plan.incoming.scale != null ? "dolly" : "fade",
       vector: translate != null && "x" in translate ? translate : undefined,
       opacityFrom: plan.incoming.opacityFrom,
       fromScale: plan.incoming.scale?.from,
-- 
2.43.0


From 5345799aa522f6f6f47a9c8616e434a7051a6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 10/95] fix: leave the last frame unscaled when it holds to the
 end

---
 src/animation/animator.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index c851838..8a1d07b 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -987,7 +987,7 @@ function emitComposedFrame(
 
   const needSlide = entrance.kind === "slide" || exit.kind === "slide" || entrance.vector != null || exit.vector != null;
   const needScale = entrance.fromScale != null;
-  const needExitScale = exit.toScale != null;
+  const needExitScale = exit.toScale != null && !holdToEnd;
   const needReveal = entrance.reveal != null;
   // A fade/dolly entrance RAMPS opacity in over [enter, start]; a slide/reveal
   // entrance SNAPS opacity to 1 at `enter` (the transform / clip does the hiding).
-- 
2.43.0


From f9c963b758903ccb4277d303c0d5fe2690bddb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 11/95] fix: treat a transition that takes no time as a cut

---
 src/animation/animator.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 8a1d07b..68785bb 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1407,6 +1407,16 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
   // DM-1145: guard against cross-frame id collisions (reused/cached svgContent).
   let frames = dedupeFrameIds(config.frames);
 
+  // A transition that takes no time IS a cut, whatever its type: the fade / slide /
+  // reveal tracks need a non-empty window (their window-start and window-end stops
+  // would otherwise collide on one keyframe offset and the later one would win).
+  frames = frames.map((f) =>
+    f.transition != null && f.transition.type !== "cut" && f.transition.duration === 0
+      ? { ...f, transition: { type: "cut", duration: 0 } }
+      : f,
+  );
+
+
   const totalDuration = frames.reduce(
     (sum, f) => sum + frameAdvanceMs(f),
     0,
-- 
2.43.0


From bcec73941993e766f31419b6fc43329cda124517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:47 +0000
Subject: [PATCH 12/95] fix: treat a magic-move without a bridge as a crossfade

---
 src/animation/animator.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 68785bb..2824334 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1416,6 +1416,13 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
       : f,
   );
 
+  // A magic-move without a built bridge is a crossfade (its documented fallback), on
+  // both sides of the boundary.
+  frames = frames.map((f) =>
+    f.transition?.type === "magic-move" && f.magicMove == null
+      ? { ...f, transition: { type: "crossfade", duration: f.transition.duration } }
+      : f,
+  );
 
   const totalDuration = frames.reduce(
     (sum, f) => sum + frameAdvanceMs(f),
-- 
2.43.0


From 233a56580fbe567915fbf9b60804a1829dcaec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 13/95] fix: track cursor visibility across chunk boundaries
 and resets

---
 src/terminal/emulator.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index b5afec6..43ccc1b 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -54,7 +54,8 @@ export class TerminalEmulator {
   rows: number;
   private theme: TerminalTheme;
   // `@xterm/headless` has no public cursor-visibility getter, so track DECTCEM
-  // (`\x1b[?25h` show / `\x1b[?25l` hide) off the byte stream ourselves.
+  // (`\x1b[?25h` show / `\x1b[?25l` hide) ourselves, through xterm's own parser so
+  // a sequence split across output chunks (or carrying several modes) still counts.
   private cursorVisible = true;
 
   constructor(cols: number, rows: number, theme: TerminalTheme = THEMES.catppuccin) {
@@ -62,13 +63,23 @@ export class TerminalEmulator {
     this.rows = rows;
     this.theme = theme;
     this.term = new Terminal({ cols, rows, allowProposedApi: true, scrollback: 0 });
+    // Returning false lets xterm's built-in handler run as well.
+    const onMode = (visible: boolean) => (params: (number | number[])[]): boolean => {
+      if (params.includes(25)) this.cursorVisible = visible;
+      return false;
+    };
+    const onReset = (): boolean => {
+      this.cursorVisible = true;
+      return false;
+    };
+    this.term.parser.registerCsiHandler({ prefix: "?", final: "h" }, onMode(true));
+    this.term.parser.registerCsiHandler({ prefix: "?", final: "l" }, onMode(false));
+    this.term.parser.registerCsiHandler({ intermediates: "!", final: "p" }, onReset); // DECSTR soft reset
+    this.term.parser.registerEscHandler({ final: "c" }, onReset); // RIS full reset
   }
 
   /** Feed raw output bytes; resolves once xterm has parsed them. */
   write(data: string): Promise<void> {
-    // Track the LAST cursor show/hide toggle in this chunk (DECTCEM).
-    const m = data.match(/\x1b\[\?25([hl])(?![\s\S]*\x1b\[\?25[hl])/);
-    if (m != null) this.cursorVisible = m[1] === "h";
     return new Promise((resolve) => this.term.write(data, resolve));
   }
 
-- 
2.43.0


From 1074eb83a97d89d6f163c54f9b185ff79aa62a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 14/95] fix: emit no space for the second cell of a wide
 character

---
 src/terminal/emulator.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index 43ccc1b..1429ebe 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -133,9 +133,11 @@ export class TerminalEmulator {
           row.push({ char: " ", fg: null, bg: null, bold: false, italic: false, dim: false, underline: false });
           continue;
         }
-        const chars = cell.getChars();
+        // A wide glyph occupies two cells; the second (width 0) holds no text of
+        // its own, so it must not become a space after the glyph.
+        const chars = cell.getWidth() === 0 ? "" : cell.getChars() || " ";
         row.push({
-          char: chars === "" ? " " : chars,
+          char: chars,
           fg: this.resolveColor(cell.getFgColor(), cell.isFgRGB(), cell.isFgPalette()),
           bg: this.resolveColor(cell.getBgColor(), cell.isBgRGB(), cell.isBgPalette()),
           bold: cell.isBold() !== 0,
-- 
2.43.0


From b0207c635294f2be39aca8c104604626bfd80bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 15/95] fix: keep the caret on the last column while a wrap is
 pending

---
 src/terminal/emulator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index 1429ebe..0f7a1e2 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -97,7 +97,9 @@ export class TerminalEmulator {
   /** The cursor's current cell + visibility. */
   cursor(): TermCursor {
     const buf = this.term.buffer.active;
-    return { x: buf.cursorX, y: buf.cursorY, visible: this.cursorVisible };
+    // After filling the last column the cursor waits there (pending wrap); xterm
+    // reports that as x === cols, one past the cell the caret is drawn on.
+    return { x: Math.min(buf.cursorX, this.cols - 1), y: buf.cursorY, visible: this.cursorVisible };
   }
 
   /**
-- 
2.43.0


From ffcf26b7bbc6edd7c0eb41d50c08cd9d40b819b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 16/95] fix: keep trailing underlined blanks of a terminal row

---
 src/terminal/render.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terminal/render.ts b/src/terminal/render.ts
index 0764a98..27ef705 100644
--- a/src/terminal/render.ts
+++ b/src/terminal/render.ts
@@ -134,7 +134,7 @@ export function rowInnerHtml(row: TermCell[], theme: TerminalTheme): string {
   let end = row.length;
   while (end > 0) {
     const c = row[end - 1];
-    if (c.char !== " " || c.fg != null || c.bg != null) break;
+    if (c.char !== " " || c.fg != null || c.bg != null || c.underline) break;
     end--;
   }
   if (end === 0) return "";
-- 
2.43.0


From cf34934a9348e81e4ab35e4ac38eca340c7a16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:20 +0000
Subject: [PATCH 17/95] fix: derive the caret advance from the measured grid
 width

---
 src/terminal/incremental.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/terminal/incremental.ts b/src/terminal/incremental.ts
index ff024a3..6550019 100644
--- a/src/terminal/incremental.ts
+++ b/src/terminal/incremental.ts
@@ -404,7 +404,9 @@ export async function composeIncrementalTermSvg(
   // Blinking caret that follows the recorded cursor (incremental mode). charW is
   // the monospace cell advance, recovered from the measured content width.
   const shape = opts.cursor ?? "block";
-  const charW = cols > 0 ? (width - 2 * padding) / cols : fontSize * MONO_ADVANCE_RATIO;
+  // The canvas is measured from the LARGEST grid, so that grid's column count
+  // is what divides the measured width.
+  const charW = maxCols > 0 ? (width - 2 * padding) / maxCols : fontSize * MONO_ADVANCE_RATIO;
   const cursor = shape === "none" ? null : buildCursor(frames, totalMs, charW, linePx, padding, shape, opts.cursorColor ?? theme.fg);
 
   const fontFaceCss = manageFonts ? getEmbeddedFontFaceCss() : "";
-- 
2.43.0


From 71812d30f4cd0aa99a2e1ebdeb21e9181fe3bf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:48 +0000
Subject: [PATCH 18/95] fix: keep the overshoot of an eased track in a sampled
 fused animation

---
 src/animation/easing.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/animation/easing.ts b/src/animation/easing.ts
index 983c5eb..2520c42 100644
--- a/src/animation/easing.ts
+++ b/src/animation/easing.ts
@@ -140,10 +140,14 @@ const NUM_RE = /-?\d*\.?\d+(?:e-?\d+)?/g;
  * `"inset(-10% 100% -10% 0)"`→`"inset(-10% 0% -10% 0)"` (clip-path). If the two
  * strings don't share the same non-numeric skeleton (e.g. different units), it
  * can't be smoothly interpolated, so it steps at the midpoint.
+ *
+ * `t` is the EASED progress, so an overshooting curve (`cubic-bezier` with a `y`
+ * outside [0,1], e.g. the `spring` presets) passes values below 0 / above 1.
+ * Those extrapolate, exactly as the CSS engine does for a from/to pair.
  */
 export function interpolateCssValue(from: string, to: string, t: number): string {
-  if (t <= 0) return from;
-  if (t >= 1) return to;
+  if (t === 0) return from;
+  if (t === 1) return to;
   const fParts: string[] = [];
   const fNums: number[] = [];
   let last = 0;
-- 
2.43.0


From e3fe5165bb0995ca8e072deb013fa92eecdb8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:53 +0000
Subject: [PATCH 19/95] fix: sample a fused track over its own window, however
 long the scene is

---
 src/animation/animator.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 2824334..32798e0 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -3035,7 +3035,15 @@ function buildIntraFrameAnimationCss(
         // Stops: 0/100 + every track boundary + a fine grid across the active
         // span so each track's eased curve is well approximated.
         const stopSet = new Set<number>([0, 100]);
-        for (const w of win) { stopSet.add(w.startPct); stopSet.add(w.endPct); }
+        const TRACK_STOPS = 24;
+        // The grid must also resolve each track's OWN window: a fixed 2 % of the
+        // scene is the whole reveal in a long scene, which would flatten its
+        // easing to a straight line.
+        for (const w of win) {
+          stopSet.add(w.startPct);
+          stopSet.add(w.endPct);
+          for (let k = 1; k < TRACK_STOPS; k++) stopSet.add(w.startPct + ((w.endPct - w.startPct) * k) / TRACK_STOPS);
+        }
         const STEP = 2;
         for (let p = minStart; p < maxEnd; p += STEP) stopSet.add(p);
         const stops = [...stopSet].filter((p) => p >= 0 && p <= 100).sort((x, y) => x - y);
-- 
2.43.0


From de96ddf2bfb50bc02b61c3dc6f5fcfae54d1ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:19 +0000
Subject: [PATCH 20/95] fix: sample the spring presets' linear() curve instead
 of dropping it

---
 src/animation/easing.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/animation/easing.ts b/src/animation/easing.ts
index 2520c42..195060e 100644
--- a/src/animation/easing.ts
+++ b/src/animation/easing.ts
@@ -60,8 +60,9 @@ const NAMED: Record<string, EasingFn> = {
 };
 
 /**
- * Parse a CSS easing string into an `EasingFn`. Handles the named keywords and
- * `cubic-bezier(a,b,c,d)`. `step`/`steps()` and anything unrecognized fall back
+ * Parse a CSS easing string into an `EasingFn`. Handles the named keywords,
+ * `cubic-bezier(a,b,c,d)`, and the evenly spaced `linear(v0, v1, …)` form the
+ * spring presets are baked to. `step`/`steps()` and anything unrecognized fall back
  * to `linear` — the sampled path is for smooth curves; discrete steps don't need
  * baking (they'd be authored as explicit stops).
  */
@@ -71,6 +72,17 @@ export function resolveEasing(css: string | undefined): EasingFn {
   if (s in NAMED) return NAMED[s];
   const m = /^cubic-bezier\(\s*([-\d.]+)\s*,\s*([-\d.]+)\s*,\s*([-\d.]+)\s*,\s*([-\d.]+)\s*\)$/.exec(s);
   if (m != null) return cubicBezier(parseFloat(m[1]), parseFloat(m[2]), parseFloat(m[3]), parseFloat(m[4]));
+  const l = /^linear\(([-\d.,\s]+)\)$/.exec(s);
+  if (l != null) {
+    const vals = l[1].split(",").map((v) => Number(v.trim()));
+    if (vals.length >= 2 && vals.every(Number.isFinite)) {
+      return (t: number): number => {
+        const x = Math.min(1, Math.max(0, t)) * (vals.length - 1);
+        const i = Math.min(vals.length - 2, Math.floor(x));
+        return vals[i] + (vals[i + 1] - vals[i]) * (x - i);
+      };
+    }
+  }
   return NAMED.linear;
 }
 
-- 
2.43.0


From 9a87a2d82deacabe875e0a7f27a17c28528608e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:33 +0000
Subject: [PATCH 21/95] fix: never cull a repeating animation's element by its
 first pass alone

---
 src/tree-ops/swept-transform-bounds.ts | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/tree-ops/swept-transform-bounds.ts b/src/tree-ops/swept-transform-bounds.ts
index 75e8d7c..d47440f 100644
--- a/src/tree-ops/swept-transform-bounds.ts
+++ b/src/tree-ops/swept-transform-bounds.ts
@@ -58,6 +58,8 @@ interface TimingModel {
   durationPct: number;
   iterations: number | "infinite";
   alternate: boolean;
+  /** Loops on its own document clock rather than replaying with the scene. */
+  repeating: boolean;
   easing: EasingModel;
   /**
    * The animator bakes independently timed fused tracks to linear keyframe
@@ -380,6 +382,7 @@ function timingForTrack(
     durationPct: durationMs * pctPerMs,
     iterations,
     alternate: repeating && ctx.anim.alternate === true,
+    repeating,
     easing,
     wholeActiveRange: sampledFusion,
   };
@@ -512,7 +515,25 @@ function terminalProgress(timing: TimingModel): number {
   return timing.alternate && timing.iterations % 2 === 0 ? 0 : 1;
 }
 
+/**
+ * Progress during one interval of the scene clock, over EVERY pass of the scene.
+ * A one-shot track runs on the scene clock, so each pass repeats the first. A
+ * `repeat` animation runs on its own clock: an infinite loop drifts against the
+ * scene (and has no "before" phase from the second pass on), and a finite one
+ * rests in its terminal state on every later pass.
+ */
 function progressRange(timing: TimingModel, startPct: number, endPct: number): [number, number] | null {
+  if (!timing.repeating) return firstPassProgressRange(timing, startPct, endPct);
+  if (timing.iterations === "infinite" || timing.startPct + timing.durationPct * timing.iterations > 100) {
+    return timing.easing.range(0, 1);
+  }
+  const first = firstPassProgressRange(timing, startPct, endPct);
+  if (first == null) return null;
+  const rest = terminalProgress(timing);
+  return [Math.min(first[0], rest), Math.max(first[1], rest)];
+}
+
+function firstPassProgressRange(timing: TimingModel, startPct: number, endPct: number): [number, number] | null {
   const midpoint = (startPct + endPct) / 2;
   const activeEnd = timing.iterations === "infinite"
     ? Number.POSITIVE_INFINITY
-- 
2.43.0


From fbae7b066813c08b8e8a26da44e9c6f0fe4f7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:17 +0000
Subject: [PATCH 22/95] fix: keep a position:fixed descendant inside the group
 its ancestor composites

---
 src/render/element-tree-to-svg.ts |  9 +++++----
 src/render/paint-order.ts         |  5 +++--
 src/render/stacking.ts            | 24 ++++++++++++++++++++++++
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 622f2ec..70d5744 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, compositesFixedDescendants, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -3381,14 +3381,15 @@ function elementTreeToSvgInnerImpl(
           hoistedFromAncestor.add(c);
         }
         // c is its own SC root; descendants render via c's renderElement.
-      } else if (!isFixedContainingBlock(c)) {
+      } else if (!isFixedContainingBlock(c) && !compositesFixedDescendants(c)) {
         collectViewportFixed(c);
       }
-      // else: c is a fixed-CB; fixed descendants stay within c's subtree.
+      // else: c is a fixed-CB (or composites its subtree as one group); fixed
+      // descendants stay within c's subtree.
     }
   };
   for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)) {
+    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e) && !compositesFixedDescendants(e)) {
       collectViewportFixed(e);
     }
   }
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index d987735..116c234 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -48,6 +48,7 @@ import {
   establishesStackingContext,
   gatherStackingContextChildren,
   isFixedContainingBlock,
+  compositesFixedDescendants,
   sortChildrenByPaintOrder,
 } from "./stacking.js";
 
@@ -103,13 +104,13 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
           topFlat.push(c);
           hoisted.add(c);
         }
-      } else if (!isFixedContainingBlock(c)) {
+      } else if (!isFixedContainingBlock(c) && !compositesFixedDescendants(c)) {
         collectViewportFixed(c);
       }
     }
   };
   for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e)) {
+    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e) && !compositesFixedDescendants(e)) {
       collectViewportFixed(e);
     }
   }
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index c8fad7a..5b50804 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -512,6 +512,30 @@ export function isFixedContainingBlock(el: CapturedElement): boolean {
   return false;
 }
 
+/**
+ * True when `el` composites its descendants as one group — group opacity, a
+ * blend mode, a mask, a clip-path, or an animated wrapper. None of these is a
+ * containing block for `position: fixed` descendants, but a fixed descendant is
+ * still inside the group: it takes the group's opacity (an `opacity: 0` modal
+ * hides its fixed panel), clip and motion, so it must not be painted outside it.
+ *
+ * A group that also clips its overflow keeps handing its fixed descendants to the
+ * viewport layer, since the overflow clip must not apply to them — except at
+ * `opacity: 0`, where there is nothing to paint.
+ */
+export function compositesFixedDescendants(el: CapturedElement): boolean {
+  const s = el.styles;
+  const op = parseFloat(s.opacity);
+  if (op === 0) return true;
+  const visible = (v: string | undefined): boolean => v == null || v === "" || v === "visible";
+  if (!visible(s.overflowX) || !visible(s.overflowY)) return false;
+  if (el.animId != null && el.animId !== "") return true;
+  if (Number.isFinite(op) && op < 1) return true;
+  if (s.mixBlendMode != null && s.mixBlendMode !== "" && s.mixBlendMode !== "normal") return true;
+  if (s.maskImage != null && s.maskImage !== "" && s.maskImage !== "none") return true;
+  return s.clipPath != null && s.clipPath !== "" && s.clipPath !== "none";
+}
+
 /**
  * One stacking context's children grouped by paint step (CSS 2.1 Appendix E).
  * `sortChildrenByPaintOrder` concatenates these into the flat paint order;
-- 
2.43.0


From 9dcc9bfa260076edd6abeb82005a8ea1cc81af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 23/95] fix: keep an image's own styling on one element when
 its payload is shared

---
 src/post-processing/hoist-image-payloads.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/post-processing/hoist-image-payloads.ts b/src/post-processing/hoist-image-payloads.ts
index d75b760..306281f 100644
--- a/src/post-processing/hoist-image-payloads.ts
+++ b/src/post-processing/hoist-image-payloads.ts
@@ -221,24 +221,24 @@ export function hoistDuplicateImagePayloads(svg: string, opts: HoistImagePayload
       toRewrite = members;
     }
     for (const img of toRewrite) {
-      const coordAttrs = img.attrs.filter((a) => COORD_SENSITIVE_ATTRS.has(a.name));
-      const useAttrs = img.attrs.filter(
-        (a) => !COORD_SENSITIVE_ATTRS.has(a.name) && !DEF_ATTRS.has(a.name) && a.name !== "x" && a.name !== "y",
-      );
+      // Kept together on one element: a `class` / `style` split from `opacity`
+      // would no longer override it, and both would apply.
+      const ownAttrs = img.attrs.filter((a) => !DEF_ATTRS.has(a.name) && a.name !== "x" && a.name !== "y");
+      const needsWrapper = img.children !== "" || ownAttrs.some((a) => COORD_SENSITIVE_ATTRS.has(a.name));
       const x = attrValue(img, "x");
       const y = attrValue(img, "y");
       const useTag = `<use href="#${defId}"`
         + (x != null ? ` x="${x}"` : "")
         + (y != null ? ` y="${y}"` : "")
-        + fmtAttrs(useAttrs)
+        + (needsWrapper ? "" : fmtAttrs(ownAttrs))
         + `/>`;
       replacements.set(
         img.start,
-        coordAttrs.length === 0 && img.children === ""
+        !needsWrapper
           ? useTag
           // The `<g>` holds the clip/mask/filter so it resolves in the ORIGINAL
           // user space; the `<use>` inside carries only the translate.
-          : `<g${fmtAttrs(coordAttrs)}>${img.children}${useTag}</g>`,
+          : `<g${fmtAttrs(ownAttrs)}>${img.children}${useTag}</g>`,
       );
     }
   }
-- 
2.43.0


From 0fed81bf7f295c551b5ba810d85d567d1acbbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:17 +0000
Subject: [PATCH 24/95] fix: keep transform matrices exact when optimising

---
 src/post-processing/optimize.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/post-processing/optimize.ts b/src/post-processing/optimize.ts
index 9332fe8..d059c31 100644
--- a/src/post-processing/optimize.ts
+++ b/src/post-processing/optimize.ts
@@ -24,7 +24,10 @@ export function optimizeSvg(svg: string): string {
       transformPrecision: 3,
       makeArcs: false,
     } } as PluginConfig,
-    "convertTransform",
+    // svgo decomposes a matrix into rotate/scale/skew at a precision derived from
+    // the digits the matrix happens to be written with, so a short matrix loses
+    // its scale or skew outright. Keep the matrix.
+    { name: "convertTransform", params: { matrixToTransform: false } } as PluginConfig,
     // DM-1454: `minifyStyles` (csso) restructures/reorders CSS declarations and
     // can factor a common longhand out across rules. So animation CSS we emit
     // MUST be order-independent: the timing function belongs INSIDE the
-- 
2.43.0


From 42af5e781ca0007eaaec9077b85d9b35e234471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:21 +0000
Subject: [PATCH 25/95] fix: element text can't pass for structure in a tree
 fingerprint

---
 src/tree-ops/tree-diff.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tree-ops/tree-diff.ts b/src/tree-ops/tree-diff.ts
index 32329cb..9e0d415 100644
--- a/src/tree-ops/tree-diff.ts
+++ b/src/tree-ops/tree-diff.ts
@@ -193,9 +193,11 @@ function pathKey(path: number[]): string {
  * hint and we want it to dominate over coincidental text matches.
  */
 function capturedElementFingerprint(el: CapturedElement): string {
-  const childFP = (el.children ?? []).map(capturedElementFingerprint).join("|");
-  const animPart = el.animId != null && el.animId !== "" ? `@${el.animId}` : "";
-  return `${el.tag}${animPart}:${el.text ?? ""}:[${childFP}]`;
+  const childFP = (el.children ?? []).map(capturedElementFingerprint).join(",");
+  // The strings are quoted so that text which looks like fingerprint punctuation
+  // can't pass for structure.
+  const own = [el.tag, el.animId ?? "", el.text ?? ""].map((s) => JSON.stringify(s)).join(",");
+  return `[${own},[${childFP}]]`;
 }
 
 /**
-- 
2.43.0


From b96b96d2dce5ae4becf19225684996184412d59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 26/95] fix: the image fetch timeout covers the response body

---
 src/capture/embed.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/capture/embed.ts b/src/capture/embed.ts
index 00dcdc1..0036ac9 100644
--- a/src/capture/embed.ts
+++ b/src/capture/embed.ts
@@ -313,7 +313,7 @@ export async function embedRemoteImages(
     for (let attempt = 0; attempt <= retries; attempt++) {
       if (attempt > 0) await delay(retryBackoffMs);
       try {
-        const res = await fetchWithTimeout(url, timeoutMs);
+        const { res, body } = await fetchWithTimeout(url, timeoutMs);
         if (!res.ok) {
           // 4xx is deterministic — retrying won't help, so bail immediately.
           if (res.status < 500) {
@@ -323,7 +323,7 @@ export async function embedRemoteImages(
           lastFailure = { kind: "status", status: res.status };
           continue;
         }
-        const buf = Buffer.from(await res.arrayBuffer());
+        const buf = Buffer.from(body);
         // Prefer Content-Type, fall back to URL-suffix sniff. NYT-style URLs
         // often carry a `?format=pjpg&...` suffix that would defeat extension
         // sniffing on its own.
@@ -357,11 +357,13 @@ function delay(ms: number): Promise<void> {
  * named `RemoteImageTimeoutError` so the warning detail tells consumers
  * "this URL didn't respond in time" rather than the generic AbortError.
  */
-async function fetchWithTimeout(url: string, timeoutMs: number): Promise<Response> {
+async function fetchWithTimeout(url: string, timeoutMs: number): Promise<{ res: Response; body: ArrayBuffer }> {
   const controller = new AbortController();
   const timer = setTimeout(() => controller.abort(), timeoutMs);
   try {
-    return await fetch(url, { signal: controller.signal });
+    // Read the body under the same timer: a host can stall after its headers too.
+    const res = await fetch(url, { signal: controller.signal });
+    return { res, body: res.ok ? await res.arrayBuffer() : new ArrayBuffer(0) };
   } catch (err) {
     if (err instanceof Error && err.name === "AbortError") {
       const e = new Error(`timed out after ${timeoutMs}ms`);
-- 
2.43.0


From 407267b232358e58f1570f0a950e9f316f24c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:07 +0000
Subject: [PATCH 27/95] fix: resized images cover the painted size on both axes

---
 docs/27-image-resize-on-embed.md       | 2 +-
 src/tree-ops/resize-embedded-images.ts | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/docs/27-image-resize-on-embed.md b/docs/27-image-resize-on-embed.md
index 674d10d..2ad71f2 100644
--- a/docs/27-image-resize-on-embed.md
+++ b/docs/27-image-resize-on-embed.md
@@ -89,7 +89,7 @@ For URLs referenced from CSS (`backgroundImage`, etc.) the same URL may appear o
 - Domotion already ships native dependencies via Playwright (Chromium binaries per OS/arch); adding sharp doesn't change the platform-support story.
 - Prebuilt binaries cover `darwin-x64`, `darwin-arm64`, `linux-x64`, `linux-arm64`, `linux-musl-x64`, `linux-musl-arm64`, `win32-x64` — full coverage of the platforms Domotion targets (DM-258 / DM-260).
 
-`sharp(buf).resize(w, h, { fit: "inside", withoutEnlargement: true }).png({ compressionLevel: 9 }).toBuffer()` is the call shape. `withoutEnlargement: true` is a defense-in-depth guard — the resize-threshold check above already prevents upscale, but if the threshold logic is ever wrong, sharp won't blow the source up to fit.
+`sharp(buf).resize(w, h, { fit: "outside", withoutEnlargement: true }).png({ compressionLevel: 9 }).toBuffer()` is the call shape. `withoutEnlargement: true` is a defense-in-depth guard — the resize-threshold check above already prevents upscale, but if the threshold logic is ever wrong, sharp won't blow the source up to fit.
 
 ## Renderer integration
 
diff --git a/src/tree-ops/resize-embedded-images.ts b/src/tree-ops/resize-embedded-images.ts
index f69ae3e..4e8d4a5 100644
--- a/src/tree-ops/resize-embedded-images.ts
+++ b/src/tree-ops/resize-embedded-images.ts
@@ -117,11 +117,12 @@ export async function resizeEmbeddedImages(
         rememberResized(url, sizeKey, sourceDataUri);
         return;
       }
-      // `fit: "inside"` preserves aspect ratio within the target box;
-      // `withoutEnlargement: true` is defense-in-depth in case the threshold
-      // check above mis-fires.
+      // `fit: "outside"` preserves aspect ratio and covers the target box on
+      // both axes — a stretched (`object-fit: fill`) consumer needs the full
+      // target resolution on its smaller axis too. `withoutEnlargement: true`
+      // keeps a source that is smaller than the target on one axis as it is.
       const out = await sharp(sourceBytes)
-        .resize(w, h, { fit: "inside", withoutEnlargement: true })
+        .resize(w, h, { fit: "outside", withoutEnlargement: true })
         .png({ compressionLevel: 9 })
         .toBuffer();
       // DM-542: if the resized PNG ended up LARGER than the source bytes
-- 
2.43.0


From e204f286233932ee3c944169f6ba82afc2346620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 28/95] fix: embedding an animated SVG no longer rewrites its
 visible text, transforms or other attributes that happen to contain a renamed
 name

---
 src/animation/embed-namespace.ts | 135 +++++++++++++++++++------------
 1 file changed, 82 insertions(+), 53 deletions(-)

diff --git a/src/animation/embed-namespace.ts b/src/animation/embed-namespace.ts
index b20aeca..7b92e02 100644
--- a/src/animation/embed-namespace.ts
+++ b/src/animation/embed-namespace.ts
@@ -19,9 +19,8 @@
  *    the outer frame-visibility timing gets the inner timeline.
  *  - **the `--scene-dur` custom property** on `:root`.
  *
- * The fix: rewrite every such name with a per-frame token. The vocabulary is
- * fully controlled (domotion's own renderer/animator emits it), so the rewrite is
- * precise. The token must be a valid CSS-ident prefix (start with a letter).
+ * The fix: rewrite every such name with a per-frame token. Only names in
+ * tags and style sheets are rewritten: the document's text is left as it is. The token must be a valid CSS-ident prefix (start with a letter).
  *
  * This is the same class of problem the `cast` frame sidesteps by sharing the
  * outer embedded-font builder (`manageFonts: false`); a template runs a fully
@@ -29,8 +28,32 @@
  * namespaced after the fact instead.
  */
 
-const escapeRe = (s: string): string => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
-const byLengthDesc = (a: string, b: string): number => b.length - a.length;
+/** `<style>` blocks (open tag, CSS, close tag), comments / CDATA, and every other tag. */
+const MARKUP_RE = /(<style\b[^>]*>)([\s\S]*?)(<\/style>)|<!--[\s\S]*?-->|<!\[CDATA\[[\s\S]*?\]\]>|<[A-Za-z](?:[^<>"']|"[^"]*"|'[^']*')*>/g;
+
+/**
+ * Rewrite the tags and the style sheets of `svg`, leaving character data (the
+ * text a viewer reads) and comments exactly as they are.
+ */
+function rewriteMarkup(svg: string, tag: (t: string) => string, css: (c: string) => string): string {
+  return svg.replace(MARKUP_RE, (full: string, open?: string, sheet?: string, close?: string) => {
+    if (open != null) return tag(open) + css(sheet ?? "") + close;
+    return full[1] === "!" ? full : tag(full);
+  });
+}
+
+/** Rewrite a style sheet's preludes (selectors, at-rule heads) and declarations separately. */
+function rewriteCss(css: string, prelude: (p: string) => string, decl: (d: string) => string): string {
+  return css.replace(/([^{};]*)([{};]|$)/g, (_full: string, body: string, end: string) =>
+    (end === "{" ? prelude(body) : decl(body)) + end);
+}
+
+/** Rewrite the value of every attribute of an opening tag. */
+function rewriteAttributes(tag: string, fn: (name: string, value: string) => string): string {
+  return tag.replace(/(\s)([^\s"'=<>/]+)(\s*=\s*)("([^"]*)"|'([^']*)')/g,
+    (_full: string, ws: string, name: string, eq: string, quoted: string, dq?: string, sq?: string) =>
+      `${ws}${name}${eq}${quoted[0]}${fn(name, dq ?? sq ?? "")}${quoted[0]}`);
+}
 
 /** Options for {@link namespaceEmbeddedAnimatedSvg}. */
 export interface NamespaceEmbedOptions {
@@ -55,58 +78,64 @@ export interface NamespaceEmbedOptions {
  * to be a single `<svg>…</svg>` document as produced by `generateAnimatedSvg`.
  */
 export function namespaceEmbeddedAnimatedSvg(svg: string, token: string, opts: NamespaceEmbedOptions = {}): string {
-  let out = svg;
-
-  // 1. Element ids + every reference (url(#id) / (xlink:)href="#id"). Longest
-  //    name first so an id that is a textual prefix of another can't partial-match.
+  // Collect the document's global names: ids and classes from real attributes,
+  // `@keyframes` names from the style sheets.
   const ids = new Set<string>();
-  for (const m of out.matchAll(/\sid="([^"]+)"/g)) ids.add(m[1]);
-  for (const id of [...ids].sort(byLengthDesc)) {
-    const e = escapeRe(id);
-    out = out
-      .replace(new RegExp(`(\\sid=")${e}(")`, "g"), `$1${token}${id}$2`)
-      .replace(new RegExp(`url\\(#${e}\\)`, "g"), `url(#${token}${id})`)
-      .replace(new RegExp(`((?:xlink:)?href=")#${e}(")`, "g"), `$1#${token}${id}$2`);
-  }
+  const classes = new Set<string>();
+  const keyframes = new Set<string>();
+  const collectAttr = (name: string, value: string): string => {
+    if (name === "id") ids.add(value);
+    if (name === "class") for (const t of value.split(/\s+/)) if (t !== "") classes.add(t);
+    return value;
+  };
+  rewriteMarkup(svg, (tag) => rewriteAttributes(tag, collectAttr), (css) => {
+    for (const m of css.matchAll(/@(?:-webkit-)?keyframes\s+([A-Za-z0-9_-]+)/g)) keyframes.add(m[1]);
+    return css;
+  });
 
-  // 2. Embedded-font families (`dmfN`). Only the `@font-face` declaration and the
-  //    `font-family` attr/decl contexts — never a bare global replace, since the
-  //    base64 `src` payload could contain the same byte sequence. Skipped when the
-  //    fonts are deferred to a shared outer builder (see NamespaceEmbedOptions).
-  if (opts.namespaceFonts !== false) {
-    out = out
-      .replace(/(font-family:\s*")(dmf\d+)(")/g, `$1${token}$2$3`)
-      .replace(/(font-family=")(dmf\d+)(")/g, `$1${token}$2$3`);
-  }
+  const namespaceFonts = opts.namespaceFonts !== false;
 
-  // 3. `@keyframes` names + their `animation:` references. A keyframe name is a
-  //    domotion-generated token (`fv-0`, `f0-f0a0-0`, …) that never appears as an
-  //    id, class, or inside the (hyphen-free) base64 font data, so a word-boundary
-  //    replace across the whole doc is safe. Longest-first for prefix safety.
-  const keyframes = new Set<string>();
-  for (const m of out.matchAll(/@keyframes\s+([A-Za-z0-9_-]+)/g)) keyframes.add(m[1]);
-  for (const name of [...keyframes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\b${escapeRe(name)}\\b`, "g"), `${token}${name}`);
-  }
+  /** Declarations, in a style sheet or in a `style` attribute. */
+  const rewriteDecl = (d: string): string => {
+    // References to ids.
+    let out = d.replace(/url\((["']?)#([^"')]+)\1\)/g, (full, q: string, id: string) =>
+      ids.has(id) ? `url(${q}#${token}${id}${q})` : full);
+    // Embedded-font families (`dmfN`). Skipped when the fonts are deferred to a
+    // shared outer builder (see NamespaceEmbedOptions).
+    if (namespaceFonts) out = out.replace(/(font-family:\s*")((?:[A-Za-z][\w-]*_)?dmf\d+)(")/g, `$1${token}$2$3`);
+    // The animations a declaration names.
+    out = out.replace(/(\banimation(?:-name)?\s*:)([\s\S]*)$/, (_full, prop: string, value: string) =>
+      prop + value.replace(/[A-Za-z0-9_-]+/g, (t) => (keyframes.has(t) ? token + t : t)));
+    // The `--scene-dur` custom property (declaration on `:root` + any `var()`).
+    return out.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
+  };
 
-  // 4. Classes. Collect the names from `class="…"` attrs (every token is renderer-
-  //    generated), then (a) prefix each token in every class attr, and (b) prefix
-  //    each known name where it appears as a `.name` selector. The selector pass is
-  //    boundary-guarded (`(?![\w-])`) and limited to the collected names so it can
-  //    never touch a decimal like `0.22` / `22.500%` in the CSS.
-  const classes = new Set<string>();
-  for (const m of out.matchAll(/\sclass="([^"]+)"/g)) {
-    for (const t of m[1].split(/\s+/)) if (t !== "") classes.add(t);
-  }
-  out = out.replace(/(\sclass=")([^"]+)(")/g, (_full, a: string, cls: string, c: string) =>
-    a + cls.split(/\s+/).map((t) => (t !== "" ? token + t : t)).join(" ") + c,
-  );
-  for (const name of [...classes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\.${escapeRe(name)}(?![\\w-])`, "g"), `.${token}${name}`);
-  }
+  /** Selectors and at-rule heads. Only collected names are touched, never a decimal like `22.5%`. */
+  const rewritePrelude = (p: string): string => {
+    if (/@(?:-webkit-)?keyframes\s/.test(p)) {
+      return p.replace(/(@(?:-webkit-)?keyframes\s+)([A-Za-z0-9_-]+)/, `$1${token}$2`);
+    }
+    return p
+      .replace(/\.(-?[A-Za-z_][\w-]*)/g, (full, name: string) => (classes.has(name) ? `.${token}${name}` : full))
+      .replace(/#(-?[A-Za-z_][\w-]*)/g, (full, name: string) => (ids.has(name) ? `#${token}${name}` : full));
+  };
 
-  // 5. The `--scene-dur` custom property (declaration on `:root` + any `var()`).
-  out = out.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
+  const rewriteAttr = (name: string, value: string): string => {
+    switch (name) {
+      case "id": return token + value;
+      case "class": return value.split(/\s+/).map((t) => (t !== "" ? token + t : t)).join(" ");
+      case "href": case "xlink:href":
+        return value.startsWith("#") && ids.has(value.slice(1)) ? `#${token}${value.slice(1)}` : value;
+      case "font-family":
+        return namespaceFonts && /^(?:[A-Za-z][\w-]*_)?dmf\d+$/.test(value) ? token + value : value;
+      case "style": return value.split(";").map(rewriteDecl).join(";");
+      default: return value.includes("url(") ? rewriteDecl(value) : value;
+    }
+  };
 
-  return out;
+  return rewriteMarkup(
+    svg,
+    (tag) => rewriteAttributes(tag, rewriteAttr),
+    (css) => rewriteCss(css, rewritePrelude, rewriteDecl),
+  );
 }
-- 
2.43.0


From a6b4d58840d301d90c8679c725793377df2254ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 29/95] fix: an embedded animation stretched to the whole loop
 is retimed like any other stretch

---
 src/animation/embed-timeline.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index 67db620..d800aac 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -204,8 +204,9 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
       .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${delayCss(css)}"`);
   }
 
-  // Nothing to do: content already starts at the origin and fills the loop.
-  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6) return svg;
+  // Nothing to do: content already starts at the origin and fills the loop (at
+  // its own rate: content stretched to the whole loop still needs retiming).
+  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6 && Math.abs(periodMs - masterMs) <= 1e-6) return svg;
 
   // Pass 1: retime matching animations + collect the keyframe names they drive.
   // Untouched declarations (e.g. a fixed-period cursor blink) are returned
-- 
2.43.0


From 03b3f5dd66611baae6159abc4a4220d3f9bc9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 30/95] fix: an embedded animation freezes on what it last
 showed, not on the switch at its loop point

---
 src/animation/embed-timeline.ts | 95 ++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 32 deletions(-)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index d800aac..ad06e16 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -122,42 +122,70 @@ function tokenizeEntry(entry: string): string[] {
   return tokens;
 }
 
+/** A stop this close (in %) to the end is the far side of an instant switch at the loop point. */
+const HAIRLINE_PCT = 0.0021;
+
+/** Parse a declaration block into property → value. */
+function parseDecls(decls: string): Map<string, string> {
+  const out = new Map<string, string>();
+  for (const d of decls.split(";")) {
+    const c = d.indexOf(":");
+    if (c > 0) out.set(d.slice(0, c).trim(), d.slice(c + 1).trim());
+  }
+  return out;
+}
+
+/**
+ * What the animation still shows when its period is about to end. That is its
+ * last stop, except where the value only switches AT 100% (a stepped segment, or
+ * a hairline one): a loop never shows such a stop, it starts over instead, so
+ * freezing on it would e.g. hide the last frame.
+ */
+function heldDecls(stops: { pct: number; decls: string }[], timing: string): string {
+  const last = stops.reduce((a, b) => (b.pct >= a.pct ? b : a));
+  if (last.pct < 100) return last.decls;
+  let changed = false;
+  const held = parseDecls(last.decls);
+  for (const [prop, value] of held) {
+    if (prop === "animation-timing-function") continue;
+    let prev: { pct: number; decls: Map<string, string> } | null = null;
+    for (const s of stops) {
+      if (s.pct >= last.pct || (prev != null && s.pct < prev.pct)) continue;
+      const decls = parseDecls(s.decls);
+      if (decls.has(prop)) prev = { pct: s.pct, decls };
+    }
+    if (prev == null) continue;
+    const stepped = /^(?:step-end|steps\(\s*1\s*(?:,\s*(?:jump-)?end\s*)?\))$/.test(prev.decls.get("animation-timing-function") ?? timing);
+    if (!stepped && last.pct - prev.pct > HAIRLINE_PCT) continue;
+    const shown = prev.decls.get(prop)!;
+    if (shown !== value) {
+      held.set(prop, shown);
+      changed = true;
+    }
+  }
+  return changed ? [...held].map(([p, v]) => `${p}: ${v};`).join(" ") : last.decls;
+}
+
 /**
  * Remap a single `@keyframes` block's stop percentages into the sub-window and
- * add the leading / trailing hold stops. `inner` is the block body (the stops);
- * returns the rewritten body.
+ * add the leading / trailing hold stops. `inner` is the block body (the stops),
+ * `timing` the easing of the animation it drives; returns the rewritten body.
  */
-function remapKeyframeBody(inner: string, offsetPct: number, scale: number): string {
+function remapKeyframeBody(inner: string, offsetPct: number, scale: number, timing: string): string {
   const stopRe = /(from|to|[\d.]+%(?:\s*,\s*[\d.]+%)*)\s*\{([^{}]*)\}/g;
-  const remapped: string[] = [];
-  let firstDecls: string | null = null;
-  let lastDecls: string | null = null;
-  let minOrig = Infinity;
-  let maxOrig = -Infinity;
-  let m: RegExpExecArray | null;
-  while ((m = stopRe.exec(inner)) != null) {
-    const selector = m[1];
-    const decls = m[2].trim();
-    const newSelectors: string[] = [];
-    for (const sel of selector.split(",")) {
+  const stops: { pct: number; decls: string }[] = [];
+  for (const m of inner.matchAll(stopRe)) {
+    for (const sel of m[1].split(",")) {
       const s = sel.trim();
-      const orig = s === "from" ? 0 : s === "to" ? 100 : parseFloat(s);
-      if (orig < minOrig) {
-        minOrig = orig;
-        firstDecls = decls;
-      }
-      if (orig > maxOrig) {
-        maxOrig = orig;
-        lastDecls = decls;
-      }
-      newSelectors.push(`${fmt(clampPct(offsetPct + orig * scale))}%`);
+      stops.push({ pct: s === "from" ? 0 : s === "to" ? 100 : parseFloat(s), decls: m[2].trim() });
     }
-    remapped.push(`${newSelectors.join(", ")} { ${decls} }`);
   }
-  if (firstDecls == null || lastDecls == null) return inner; // nothing parsed — leave as-is
-  const head = `0% { ${firstDecls} }`;
-  const tail = `100% { ${lastDecls} }`;
-  return `${head} ${remapped.join(" ")} ${tail}`;
+  if (stops.length === 0) return inner; // nothing parsed — leave as-is
+  const first = stops.reduce((a, b) => (b.pct < a.pct ? b : a));
+  const held = heldDecls(stops, timing);
+  const at = (pct: number): string => `${fmt(clampPct(offsetPct + pct * scale))}%`;
+  const remapped = stops.map((s) => `${at(s.pct)} { ${s.pct >= 100 ? held : s.decls} }`);
+  return `0% { ${first.decls} } ${remapped.join(" ")} 100% { ${held} }`;
 }
 
 /**
@@ -213,7 +241,7 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
   // byte-for-byte so only the retimed lines change. The set is shared across
   // every `<style>` block AND inline `style` attribute — the caret track's
   // shorthands live inline while its `@keyframes` live in its local `<style>`.
-  const retimed = new Set<string>();
+  const retimed = new Map<string, string>();
   const retimeCss = (css: string): string =>
     css.replace(/animation:\s*([^;}"]+)/g, (full: string, value: string) => {
       let changed = false;
@@ -225,7 +253,7 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
           if (Math.abs(sec - periodSec) <= tol) {
             const name = tokens.find((t) => parseTimeSec(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
             if (name != null) {
-              retimed.add(name);
+              retimed.set(name, tokens.find((t) => EASING_TOKEN.test(t)) ?? "ease");
               tokens[i] = `${fmt(masterSec)}s`;
               changed = true;
             }
@@ -243,11 +271,14 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
   out = out.replace(
     /@keyframes\s+([\w-]+)\s*\{((?:[^{}]*\{[^{}]*\})*[^{}]*)\}/g,
     (full: string, name: string, inner: string) =>
-      retimed.has(name) ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale)} }` : full,
+      retimed.has(name) ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale, retimed.get(name)!)} }` : full,
   );
   return out;
 }
 
+/** The timing-function token of an `animation:` entry. */
+const EASING_TOKEN = /^(?:linear|ease(?:-in|-out|-in-out)?|step-(?:start|end)|(?:linear|cubic-bezier|steps)\(.*\))$/;
+
 /** Animation-shorthand keywords that are never the `animation-name`. */
 const ANIM_KEYWORDS = new Set<string>([
   "linear", "ease", "ease-in", "ease-out", "ease-in-out", "step-start", "step-end",
-- 
2.43.0


From eb95ce993da20668b877f92c0a1bcb62c798e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 31/95] fix: instant switches survive when an embedded
 animation is squeezed into a short window

---
 src/animation/embed-timeline.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index ad06e16..d9fe8fe 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -183,7 +183,9 @@ function remapKeyframeBody(inner: string, offsetPct: number, scale: number, timi
   if (stops.length === 0) return inner; // nothing parsed — leave as-is
   const first = stops.reduce((a, b) => (b.pct < a.pct ? b : a));
   const held = heldDecls(stops, timing);
-  const at = (pct: number): string => `${fmt(clampPct(offsetPct + pct * scale))}%`;
+  // Precise enough to keep the animator's hairline (0.001%) switches apart when
+  // they are squeezed into a short window; two stops at one offset would merge.
+  const at = (pct: number): string => `${Number(clampPct(offsetPct + pct * scale).toFixed(9))}%`;
   const remapped = stops.map((s) => `${at(s.pct)} { ${s.pct >= 100 ? held : s.decls} }`);
   return `0% { ${first.decls} } ${remapped.join(" ")} 100% { ${held} }`;
 }
-- 
2.43.0


From 8ee5b230a6b802f260ce91804b706669a5ac19fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 32/95] fix: a composited layer keeps its document's own
 viewBox, namespaces and root attributes

---
 src/animation/composite.ts | 56 +++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 538abf4..3491e0f 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -138,13 +138,43 @@ export interface CompositeResult {
 }
 
 
-/** Strip the XML prolog + outer `<svg…>…</svg>` wrapper, keeping inner markup (incl. `<style>`). */
-function innerOf(svg: string): string {
-  return svg
-    .replace(/^\s*<\?xml[^>]*\?>\s*/i, "")
-    .replace(/^\s*<!doctype[^>]*>\s*/i, "")
-    .replace(/^[\s\S]*?<svg[^>]*>/i, "")
-    .replace(/<\/svg>\s*$/i, "");
+/** A source document taken apart: its root element's attributes and the markup inside it. */
+interface SourceDocument {
+  inner: string;
+  /** The root's `viewBox`, parsed; `null` when it has none. */
+  viewBox: [number, number, number, number] | null;
+  preserveAspectRatio: string | null;
+  /** The root's other attributes (presentation attributes, namespace declarations), ready to emit. */
+  rootAttrs: string;
+}
+
+/** Attributes of a layer's root that describe its own placement, which the composite decides. */
+const ROOT_PLACEMENT_ATTRS = new Set(["xmlns", "x", "y", "width", "height", "viewBox", "preserveAspectRatio", "overflow", "version", "baseProfile"]);
+
+/** Take apart a layer's document (prolog, root element, inner markup incl. `<style>`). */
+function splitDocument(svg: string): SourceDocument {
+  const open = /^(?:\s|<\?[\s\S]*?\?>|<!--[\s\S]*?-->|<!doctype[^>]*>)*<svg\b((?:[^<>"']|"[^"]*"|'[^']*')*)>/i.exec(svg);
+  if (open == null) return { inner: svg, viewBox: null, preserveAspectRatio: null, rootAttrs: "" };
+  const selfClosing = open[1].endsWith("/");
+  const close = svg.lastIndexOf("</svg");
+  const inner = selfClosing ? "" : svg.slice(open[0].length, close >= open[0].length ? close : undefined);
+  let viewBox: SourceDocument["viewBox"] = null;
+  let preserveAspectRatio: string | null = null;
+  let rootAttrs = "";
+  for (const m of open[1].matchAll(/([^\s"'=<>/]+)\s*=\s*(?:"([^"]*)"|'([^']*)')/g)) {
+    const name = m[1];
+    const quote = m[2] != null ? '"' : "'";
+    let value = m[2] ?? m[3];
+    if (name === "viewBox") {
+      const n = value.trim().split(/[\s,]+/).map(Number);
+      if (n.length === 4 && n.every(Number.isFinite)) viewBox = n as [number, number, number, number];
+    }
+    if (name === "preserveAspectRatio") preserveAspectRatio = value;
+    if (ROOT_PLACEMENT_ATTRS.has(name)) continue;
+    if (name === "style") value = value.split(";").filter((d) => !/^\s*(?:x|y|width|height|overflow)\s*:/i.test(d)).join(";");
+    rootAttrs += ` ${name}=${quote}${value}${quote}`;
+  }
+  return { inner, viewBox, preserveAspectRatio, rootAttrs };
 }
 
 /**
@@ -256,9 +286,15 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     }
     // 3. Strip the outer wrapper and re-nest at the layer's box (a nested <svg>
     //    with a viewBox scales the content to width×height and positions it).
-    const inner = innerOf(content);
-    const vb = `0 0 ${r.intrinsic.w || r.w} ${r.intrinsic.h || r.h}`;
-    let nested = `<svg x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}" viewBox="${vb}" preserveAspectRatio="none" overflow="visible">${inner}</svg>`;
+    const doc = splitDocument(content);
+    const iw = r.intrinsic.w || r.w;
+    const ih = r.intrinsic.h || r.h;
+    // A source whose own viewBox isn't its box keeps it, on a <svg> of its own.
+    const ownViewBox = doc.viewBox != null && (doc.viewBox[0] !== 0 || doc.viewBox[1] !== 0 || doc.viewBox[2] !== iw || doc.viewBox[3] !== ih);
+    const inner = ownViewBox
+      ? `<svg width="${fmt(iw)}" height="${fmt(ih)}" viewBox="${doc.viewBox!.join(" ")}"${doc.preserveAspectRatio != null ? ` preserveAspectRatio="${doc.preserveAspectRatio}"` : ""} overflow="visible">${doc.inner}</svg>`
+      : doc.inner;
+    let nested = `<svg x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}" viewBox="0 0 ${iw} ${ih}" preserveAspectRatio="none" overflow="visible"${doc.rootAttrs}>${inner}</svg>`;
 
     if (r.layer.clip === true) {
       const clipId = `${token}clip`;
-- 
2.43.0


From 32283843f214fc3dedec4bd7c61936f87cd302d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 33/95] fix: several animations on one composited layer
 compose, each about the layer's own box and in its own window

---
 src/animation/composite.ts | 140 ++++++++++++++++++++++++++-----------
 1 file changed, 100 insertions(+), 40 deletions(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 3491e0f..ae8428c 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -200,6 +200,47 @@ function resolveClipOriginPx(origin: string, base: number, size: number): number
   return base;
 }
 
+/**
+ * Resolve a layer animation's `transform-origin` to userspace px about the
+ * layer's placement box, so the pivot is the layer's box (as documented) and not
+ * the bounding box of whatever its content happens to paint. `null` when a
+ * component is in a unit that can't be resolved here.
+ */
+function resolveTransformOrigin(origin: string, x: number, y: number, w: number, h: number): string | null {
+  const parts = origin.trim().split(/\s+/);
+  let [ox, oy = "center"] = parts;
+  if (ox === "top" || ox === "bottom" || oy === "left" || oy === "right") [ox, oy] = [oy, ox];
+  const known = /^(?:left|right|top|bottom|center|[-+\d.]+%|[-+\d.]+px|0)$/;
+  if (parts.length > 2 || !known.test(ox) || !known.test(oy)) return null;
+  const px = (v: number): string => (v === 0 ? "0" : `${fmt(v)}px`);
+  return `${px(resolveClipOriginPx(ox, x, w))} ${px(resolveClipOriginPx(oy, y, h))}`;
+}
+
+/**
+ * One keyframes body playing `anims` (all animating the same thing, in any
+ * order) one after the other: each runs in its own window, and its value holds
+ * until the next one starts.
+ */
+function sequenceKeyframes(anims: CompositeLayerAnimation[], master: number, value: (a: CompositeLayerAnimation, end: "from" | "to") => string): string {
+  const sorted = [...anims].sort((a, b) => (a.start ?? 0) - (b.start ?? 0));
+  const starts = sorted.map((a) => Math.min(clampPct(((a.start ?? 0) / master) * 100), 99.9999));
+  let body = "";
+  sorted.forEach((a, i) => {
+    const last = i === sorted.length - 1;
+    const sPct = starts[i];
+    let ePct = clampPct((((a.start ?? 0) + (a.duration ?? master)) / master) * 100);
+    if (!last) ePct = Math.min(ePct, starts[i + 1] - 0.0001);
+    ePct = Math.max(ePct, sPct + 0.0001);
+    const timing = (fn: string): string => (sorted.length > 1 ? `;animation-timing-function:${fn}` : "");
+    body += `${i === 0 ? "0%," : ""}${fmt(sPct)}%{${value(a, "from")}${timing(a.easing ?? "ease")}}` +
+      `${fmt(ePct)}%${last ? ",100%" : ""}{${value(a, "to")}${last ? "" : timing("step-end")}}`;
+  });
+  return body;
+}
+
+/** Outermost to innermost: moves are in the composite's px, so they go outside a scale. */
+const TRANSFORM_ORDER = ["translateX", "translateY", "transform", "scale"] as const;
+
 /** Render a non-clip layer-animation endpoint to its CSS value (transform string / opacity). */
 function renderAnimValue(property: "scale" | "translateX" | "translateY" | "opacity" | "transform", v: string | number): string {
   switch (property) {
@@ -304,43 +345,53 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     }
 
     // 4. Layer-level animations, each held before its start and after its end so
-    //    it sits still outside its window. Transform / opacity animations go on
-    //    the layer's wrapping `<g>` (accumulated into one `animation:` decl, the
-    //    magic-move rule pattern, so several don't override each other).
-    const groupDecls: string[] = [];
-    let transformOrigin: string | null = null;
-    const clipScales: CompositeLayerAnimation[] = [];
-    (r.layer.animations ?? []).forEach((a, ai) => {
-      if (a.property === "clipScaleX" || a.property === "clipScaleY") { clipScales.push(a); return; }
-      const name = `${token}a${ai}`;
-      const sPct = clampPct(((a.start ?? 0) / master) * 100);
-      const ePct = clampPct((((a.start ?? 0) + (a.duration ?? master)) / master) * 100);
-      const prop = a.property === "opacity" ? "opacity" : "transform";
-      const from = renderAnimValue(a.property, a.from);
-      const to = renderAnimValue(a.property, a.to);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{${prop}:${from}}${fmt(ePct)}%,100%{${prop}:${to}}}`);
-      groupDecls.push(`${name} ${fmt(masterSec)}s ${a.easing ?? "ease"} infinite`);
-      if (a.property !== "opacity" && transformOrigin == null) transformOrigin = a.transformOrigin ?? "0 0";
-    });
-    const groupStyle = groupDecls.length > 0
-      ? ` style="${transformOrigin != null ? `transform-box:fill-box;transform-origin:${transformOrigin};` : ""}animation:${groupDecls.join(",")}"`
-      : "";
+    //    it sits still outside its window. Animations of one property share one
+    //    keyframes block (two `animation:` entries for a property override each
+    //    other), and each animated transform gets a wrapping `<g>` of its own so
+    //    that a move and a scale compose.
+    const anims = r.layer.animations ?? [];
+    const animEntry = (property: CompositeLayerAnimation["property"], list: CompositeLayerAnimation[]): string => {
+      const name = `${token}a${anims.indexOf(list[0])}`;
+      const cssProp = property === "opacity" ? "opacity" : "transform";
+      styleParts.push(`@keyframes ${name}{${sequenceKeyframes(list, master, (a, end) => `${cssProp}:${renderAnimValue(property as "scale", a[end])}`)}}`);
+      return `${name} ${fmt(masterSec)}s ${list.length > 1 ? "linear" : list[0].easing ?? "ease"} infinite`;
+    };
+    const wrappers: { origin: string; entries: string[] }[] = [];
+    for (const property of TRANSFORM_ORDER) {
+      const list = anims.filter((a) => a.property === property);
+      if (list.length === 0) continue;
+      const origin = list[0].transformOrigin ?? "0 0";
+      const px = resolveTransformOrigin(origin, r.x, r.y, r.w, r.h);
+      wrappers.push({
+        origin: px != null ? `transform-origin:${px};` : `transform-box:fill-box;transform-origin:${origin};`,
+        entries: [animEntry(property, list)],
+      });
+    }
+    if (wrappers.length === 0) wrappers.push({ origin: "", entries: [] });
+    const fades = anims.filter((a) => a.property === "opacity");
+    if (fades.length > 0) wrappers[0].entries.push(animEntry("opacity", fades));
 
     // 5. clipScaleX/Y — resize the layer's visible BOX (not its contents) by
     //    transform-scaling a clip-rect. Robust across nested-SVG content (unlike
-    //    animating `clip-path: inset()` directly). All clip-scale anims on a layer
-    //    share one clip-rect + one transform animation (scale(sx,sy)).
-    let clipAttr = "";
-    if (clipScales.length > 0) {
-      const sx = clipScales.find((a) => a.property === "clipScaleX");
-      const sy = clipScales.find((a) => a.property === "clipScaleY");
-      const anchor = clipScales[0];
-      const name = `${token}clipa`;
-      const clipId = `${token}rclip`;
-      const sPct = clampPct(((anchor.start ?? 0) / master) * 100);
-      const ePct = clampPct((((anchor.start ?? 0) + (anchor.duration ?? master)) / master) * 100);
-      const fromT = `scale(${Number(sx?.from ?? 1)},${Number(sy?.from ?? 1)})`;
-      const toT = `scale(${Number(sx?.to ?? 1)},${Number(sy?.to ?? 1)})`;
+    //    animating `clip-path: inset()` directly). An X and a Y clip-scale that run
+    //    together share one clip-rect + one transform animation (scale(sx,sy));
+    //    otherwise each has a clip-rect of its own, and the clips intersect.
+    const clipX = anims.filter((a) => a.property === "clipScaleX");
+    const clipY = anims.filter((a) => a.property === "clipScaleY");
+    const together = clipX.length === 1 && clipY.length === 1 &&
+      (clipX[0].start ?? 0) === (clipY[0].start ?? 0) && clipX[0].duration === clipY[0].duration &&
+      (clipX[0].easing ?? "ease") === (clipY[0].easing ?? "ease");
+    const clipRects = (together ? [[clipX, clipY]] : [[clipX, []], [[], clipY]])
+      .filter(([xs, ys]) => xs.length + ys.length > 0);
+    const clipAttrs: string[] = [];
+    for (const [xs, ys] of clipRects) {
+      const suffix = clipAttrs.length > 0 ? `${clipAttrs.length + 1}` : "";
+      const name = `${token}clipa${suffix}`;
+      const clipId = `${token}rclip${suffix}`;
+      const clipper = `${token}clipper${suffix}`;
+      const list = xs.length > 0 ? xs : ys;
+      const body = sequenceKeyframes(list, master, (a, end) =>
+        `transform:${xs.length === 0 ? `scale(1,${Number(a[end])})` : `scale(${Number(a[end])},${Number(ys[0]?.[end] ?? 1)})`}`);
       // Origin: shrink from the left/top edge by default (a window's fixed corner).
       // DM-1529: resolve the origin to an EXPLICIT userspace point (px in the SVG
       // coordinate system) rather than `transform-box:fill-box` + a keyword.
@@ -351,15 +402,24 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
       // fill-box, so it only broke in Firefox. Computing the origin in userspace
       // (relative to the rect's real x/y/w/h) needs no fill-box and is identical
       // across engines.
-      const ox = resolveClipOriginPx(sx?.transformOrigin ?? "left", r.x, r.w);
-      const oy = resolveClipOriginPx(sy?.transformOrigin ?? "top", r.y, r.h);
+      const ox = resolveClipOriginPx(xs[0]?.transformOrigin ?? "left", r.x, r.w);
+      const oy = resolveClipOriginPx(ys[0]?.transformOrigin ?? "top", r.y, r.h);
       const rad = r.layer.clipRadius != null ? ` rx="${fmt(r.layer.clipRadius)}"` : "";
-      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${token}clipper" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{transform:${fromT}}${fmt(ePct)}%,100%{transform:${toT}}} .${token}clipper{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${anchor.easing ?? "ease"} infinite}`);
-      clipAttr = ` clip-path="url(#${clipId})"`;
+      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${clipper}" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
+      styleParts.push(`@keyframes ${name}{${body}} .${clipper}{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${list.length > 1 ? "linear" : list[0].easing ?? "ease"} infinite}`);
+      clipAttrs.push(` clip-path="url(#${clipId})"`);
     }
 
-    groups.push(`<g class="${token}layer"${clipAttr}${groupStyle}>${nested}</g>`);
+    // The clips travel with the layer, so they sit inside every transform.
+    for (const attr of clipAttrs.slice(1)) nested = `<g${attr}>${nested}</g>`;
+    for (let k = wrappers.length - 1; k >= 0; k--) {
+      const wr = wrappers[k];
+      const cls = k === 0 ? ` class="${token}layer"` : "";
+      const clip = k === wrappers.length - 1 ? clipAttrs[0] ?? "" : "";
+      const style = wr.entries.length > 0 ? ` style="${wr.origin}animation:${wr.entries.join(",")}"` : "";
+      nested = `<g${cls}${clip}${style}>${nested}</g>`;
+    }
+    groups.push(nested);
   }
 
   // Transparent (no backdrop rect) for every transparent CSS form — keywords,
-- 
2.43.0


From 9e676b323361a014345761f37e725dab654b79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:51 +0000
Subject: [PATCH 34/95] fix: a layer whose document uses the composite's own
 names (clip, layer, a0) no longer collides with them

---
 src/animation/composite.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index ae8428c..026750f 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -151,6 +151,9 @@ interface SourceDocument {
 /** Attributes of a layer's root that describe its own placement, which the composite decides. */
 const ROOT_PLACEMENT_ATTRS = new Set(["xmlns", "x", "y", "width", "height", "viewBox", "preserveAspectRatio", "overflow", "version", "baseProfile"]);
 
+/** The per-layer names (behind the layer's token) that the composite itself emits. */
+const OWN_NAMES_RE = /["'\s](?:layer|clip|rclip\d*|clipper\d*)["'\s]|@keyframes\s+(?:a\d+|clipa\d*)[\s{]/;
+
 /** Take apart a layer's document (prolog, root element, inner markup incl. `<style>`). */
 function splitDocument(svg: string): SourceDocument {
   const open = /^(?:\s|<\?[\s\S]*?\?>|<!--[\s\S]*?-->|<!doctype[^>]*>)*<svg\b((?:[^<>"']|"[^"]*"|'[^']*')*)>/i.exec(svg);
@@ -317,7 +320,10 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     //    families are already globally unique and point at the single top-level
     //    `@font-face` block (`opts.fontFaceCss`) — prefixing them would dangle the
     //    reference. The id/keyframe/class namespacing still runs.
-    let content = namespaceEmbeddedAnimatedSvg(r.layer.svg, token, { namespaceFonts: r.layer.deferFonts !== true });
+    //    A source that itself uses one of the names this composite adds for the
+    //    layer gets a token of its own, so it can't collide with those either.
+    const contentToken = OWN_NAMES_RE.test(r.layer.svg) ? `${token}l_` : token;
+    let content = namespaceEmbeddedAnimatedSvg(r.layer.svg, contentToken, { namespaceFonts: r.layer.deferFonts !== true });
     // 2. …then re-anchor its internal timeline to its own start within the master.
     if (r.period > 0) {
       content = offsetEmbeddedAnimatedSvgTimeline(content, {
-- 
2.43.0


From ac4dfa4829096afc435f7a6cc302b2fce3ce89be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 35/95] fix: burned-in captions survive ':', quotes and
 backslashes in their path (ffmpeg unescapes it twice)

---
 src/cli/svg-to-video-core.ts | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index df7a864..b34cab0 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -307,18 +307,13 @@ export function resolveFormat(format: string, containerOverride?: string, transp
   return { videoCodec: f.codec, container, pixFmt, extraArgs, alpha, alphaCapable };
 }
 
-// ffmpeg's subtitles filter treats `\ : ' [ ] ,` specially in the path: `\` and
-// `:` / `'` for the filter's own option parser, and `[ ] ,` for the surrounding
-// filtergraph (where they delimit filter labels / options / chain entries). `\`
-// must be escaped first so the later-added backslashes aren't doubled.
+// A path in a filter argument is unescaped twice: by the filtergraph parser (`\`
+// `'` and the delimiters `[ ] , ;`) and then by the filter's own option parser
+// (`\` `'`, `:` between options and `=` after a name). So escape for the options
+// first and for the graph second; both also strip unescaped outer whitespace.
 function escapeSubtitlesPath(p: string): string {
-  return p
-    .replace(/\\/g, "\\\\")
-    .replace(/:/g, "\\:")
-    .replace(/'/g, "\\'")
-    .replace(/\[/g, "\\[")
-    .replace(/\]/g, "\\]")
-    .replace(/,/g, "\\,");
+  const level = (v: string, special: RegExp): string => v.replace(special, "\\$&").replace(/^\s|\s$/g, "\\$&");
+  return level(level(p, /[\\':=]/g), /[\\'[\],;]/g);
 }
 
 export interface FfmpegArgsInput {
-- 
2.43.0


From b449109d070c3adde654c160fb208cdd4dfd2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 36/95] fix: an ffmpeg that dies mid-run fails the run with its
 exit code instead of crashing the process, and is not left behind when the
 browser fails

---
 src/cli/svg-to-video-core.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index b34cab0..3212bc9 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -630,6 +630,8 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
   }
 
   const browser = await opts.launchBrowser();
+  // Ends an ffmpeg that is still waiting for frames when the run fails.
+  let stopEncoder = (): void => {};
   try {
     // Supersample by rendering the context at deviceScaleFactor = scale, then
     // letting ffmpeg downscale to the target size (crisper edges / text in the
@@ -775,10 +777,16 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
       ff.on("error", reject);
       ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
     });
+    // ffmpeg may die (or never start) while frames are still being written: the
+    // pipe's own error and the failed run are reported by whoever awaits below.
+    ffDone.catch(() => {});
+    ffStdin.on("error", () => {});
+    stopEncoder = () => { ffStdin.destroy(); ff.kill("SIGKILL"); };
 
+    // A frame that can't be written means ffmpeg is gone: say why it went.
     const writeFrame = (buf: Buffer): Promise<void> =>
       new Promise((resolve, reject) => {
-        ffStdin.write(buf, (err) => (err ? reject(err) : resolve()));
+        ffStdin.write(buf, (err) => (err ? ffDone.then(() => reject(err), reject) : resolve()));
       });
 
     // frame 0 (already rendered)
@@ -798,8 +806,10 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
 
     ffStdin.end();
     await ffDone;
+    stopEncoder = () => {};
     log(`wrote ${opts.output}`);
   } finally {
+    stopEncoder();
     await browser.close();
   }
 }
-- 
2.43.0


From 2a8e928cddd81e820f629592047881e1adea4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 37/95] fix: a foreground audio shorter than the animation no
 longer cuts the video short

---
 src/cli/svg-to-video-core.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index 3212bc9..e20c338 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -408,7 +408,8 @@ export function buildFfmpegArgs(o: FfmpegArgsInput): string[] {
   } else if (hasMusic) {
     args.push("-map", "0:v:0", "-map", `${musicIndex}:a:0`);
   } else if (hasAudio) {
-    args.push("-map", "0:v:0", "-map", `${audioIndex}:a:0`);
+    // Padded with silence: `-shortest` must end at the video, not at the voiceover.
+    args.push("-map", "0:v:0", "-map", `${audioIndex}:a:0`, "-af", "apad");
   } else {
     args.push("-map", "0:v:0");
   }
-- 
2.43.0


From 80b777ff6c32ea0820ddce8c80299cd51f2120cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 38/95] fix: an SVG without a size of its own still gets even
 video dimensions

---
 src/cli/svg-to-video-core.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index e20c338..e6540bd 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -624,8 +624,7 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
   if (intrinsic) {
     ({ width: outWidth, height: outHeight } = fitContain(intrinsic.w, intrinsic.h, opts.width, opts.height));
   } else if (opts.width != null && opts.height != null) {
-    outWidth = opts.width;
-    outHeight = opts.height;
+    ({ width: outWidth, height: outHeight } = fitContain(opts.width, opts.height));
   } else {
     throw new Error("SVG has no viewBox/width/height; pass both --width and --height.");
   }
-- 
2.43.0


From 23fda364a871ac81feced04b84fa829c808e0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 39/95] fix: an SVG's own size is read from its width, height
 and viewBox, not from stroke-width or data-width, and comma-separated
 viewBoxes are understood

---
 src/animation/svg-meta.ts    | 8 ++++----
 src/cli/svg-to-video-core.ts | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/animation/svg-meta.ts b/src/animation/svg-meta.ts
index dd45f58..86bb1e0 100644
--- a/src/animation/svg-meta.ts
+++ b/src/animation/svg-meta.ts
@@ -15,11 +15,11 @@
  * parseable (e.g. a `width="100%"` root with no viewBox).
  */
 export function parseSvgIntrinsicSize(svg: string): { w: number; h: number } | null {
-  const open = /<svg\b[^>]*>/i.exec(svg)?.[0] ?? "";
-  const w = /\bwidth="([\d.]+)(px)?"/i.exec(open);
-  const h = /\bheight="([\d.]+)(px)?"/i.exec(open);
+  const open = /<svg\b(?:[^<>"']|"[^"]*"|'[^']*')*>/i.exec(svg)?.[0] ?? "";
+  const w = /\swidth\s*=\s*["']\s*([\d.]+)(px)?\s*["']/i.exec(open);
+  const h = /\sheight\s*=\s*["']\s*([\d.]+)(px)?\s*["']/i.exec(open);
   if (w != null && h != null) return { w: parseFloat(w[1]), h: parseFloat(h[1]) };
-  const vb = /\bviewBox="[\d.\s-]*?([\d.]+)\s+([\d.]+)"/i.exec(open);
+  const vb = /\sviewBox\s*=\s*["']\s*[\d.eE+-]+[\s,]+[\d.eE+-]+[\s,]+([\d.eE+]+)[\s,]+([\d.eE+]+)\s*["']/i.exec(open);
   if (vb != null) return { w: parseFloat(vb[1]), h: parseFloat(vb[2]) };
   return null;
 }
diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index e6540bd..eb6491d 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -95,16 +95,16 @@ export function fitContain(
  * --width/--height).
  */
 export function parseSvgIntrinsicSize(markup: string): { w: number; h: number } | null {
-  const open = markup.match(/<svg\b[^>]*>/i);
+  const open = markup.match(/<svg\b(?:[^<>"']|"[^"]*"|'[^']*')*>/i);
   const tag = open ? open[0] : markup;
-  const viewBox = tag.match(/\bviewBox\s*=\s*["']\s*([\d.eE+-]+)\s+([\d.eE+-]+)\s+([\d.eE+-]+)\s+([\d.eE+-]+)\s*["']/);
+  const viewBox = tag.match(/\sviewBox\s*=\s*["']\s*([\d.eE+-]+)[\s,]+([\d.eE+-]+)[\s,]+([\d.eE+-]+)[\s,]+([\d.eE+-]+)\s*["']/);
   if (viewBox) {
     const w = Number(viewBox[3]);
     const h = Number(viewBox[4]);
     if (w > 0 && h > 0) return { w, h };
   }
-  const wAttr = tag.match(/\bwidth\s*=\s*["']\s*([\d.]+)\s*(?:px)?\s*["']/i);
-  const hAttr = tag.match(/\bheight\s*=\s*["']\s*([\d.]+)\s*(?:px)?\s*["']/i);
+  const wAttr = tag.match(/\swidth\s*=\s*["']\s*([\d.]+)\s*(?:px)?\s*["']/i);
+  const hAttr = tag.match(/\sheight\s*=\s*["']\s*([\d.]+)\s*(?:px)?\s*["']/i);
   if (wAttr && hAttr) {
     const w = Number(wAttr[1]);
     const h = Number(hAttr[1]);
-- 
2.43.0


From 281290a4f0dde364a42a89c4f74b8bce4eb0a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 40/95] fix: nested boxes paint in CSS stacking order with
 every overflow clip on their containing-block chain

---
 src/render/element-tree-to-svg.ts |  35 +++++----
 src/render/paint-order.ts         |  37 +++++-----
 src/render/stacking.ts            | 114 +++++++++++++++++++++++-------
 3 files changed, 131 insertions(+), 55 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 70d5744..dea5025 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, isOverflowOnlySC, isFixedContainingBlock, compositesFixedDescendants, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, gatherPseudoContextChildren, isNonPositionedFloat, isOverflowOnlySC, isFixedContainingBlock, compositesFixedDescendants, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -281,8 +281,10 @@ interface RenderState {
   height: number;
   idPrefix: string;
   hoistedFromAncestor: Set<CapturedElement>;
-  overflowClipForHoisted: Map<CapturedElement, CapturedElement>;
+  overflowClipForHoisted: Map<CapturedElement, CapturedElement[]>;
   overflowClipPathIds: Map<CapturedElement, string>;
+  /** `display` of each element's own parent, wherever the element is painted from. */
+  parentDisplays: Map<CapturedElement, string | undefined>;
   offGridCollapsedCells: Set<CapturedElement>;
   elementMaskRasters: Map<string, MaskRasterRef>;
   fragmentMaskDefs: Map<string, MaskFragmentDef>;
@@ -3150,7 +3152,7 @@ function buildRenderState(
   // descendant's emission in the same clip-path so the visual effect is
   // preserved. `position:fixed` descendants escape overflow clips per the
   // spec, so they aren't added here.
-  const overflowClipForHoisted = new Map<CapturedElement, CapturedElement>();
+  const overflowClipForHoisted = new Map<CapturedElement, CapturedElement[]>();
   // DM-673: maps an overflow-clip ancestor element to the clip-path id that
   // its `renderElement` generated when emitting its own `<g clip-path>`
   // wrapper. The hoisted-descendant emission re-uses the same id so the
@@ -3159,6 +3161,11 @@ function buildRenderState(
   // step 3 / base bucket; positioned descendants at step 6 / zeroOrAuto
   // bucket), so the id is populated before lookup.
   const overflowClipPathIds = new Map<CapturedElement, string>();
+  const parentDisplays = new Map<CapturedElement, string | undefined>();
+  const recordParentDisplays = (parent: CapturedElement): void => {
+    for (const c of parent.children) { parentDisplays.set(c, parent.styles.display); recordParentDisplays(c); }
+  };
+  elements.forEach(recordParentDisplays);
 
   // DM-493: top-level mask fragment defs collected at capture time. Map keyed
   // by the original DOM id; the renderer mints a per-element mask def whose
@@ -3284,6 +3291,7 @@ function buildRenderState(
     hoistedFromAncestor,
     overflowClipForHoisted,
     overflowClipPathIds,
+    parentDisplays,
     offGridCollapsedCells,
     elementMaskRasters,
     fragmentMaskDefs,
@@ -3670,17 +3678,15 @@ function renderMaskPhase(state: RenderState, el: CapturedElement): string | null
 // the map (CSS Overflow 3 §2.2 — fixed elements escape ancestor
 // overflow clipping), so they aren't wrapped here.
 function renderElementWithOverflowClip(state: RenderState, el: CapturedElement, depth: number, parentDisplayForEl?: string, phase: PaintPhase = "all"): void {
-  const { overflowClipForHoisted, overflowClipPathIds, svgParts } = state;
-  const overflowClipAncestor = overflowClipForHoisted.get(el);
-  const clipId = overflowClipAncestor != null ? overflowClipPathIds.get(overflowClipAncestor) : undefined;
-  if (clipId == null) {
-    renderElement(state, el, depth, parentDisplayForEl, phase);
-    return;
-  }
+  const { overflowClipForHoisted, parentDisplays, svgParts } = state;
+  const clipIds = (overflowClipForHoisted.get(el) ?? [])
+    .map((a) => ensureChildOverflowClipId(state, a, parseCornerRadii(a.styles, a.width, a.height)))
+    .filter((id) => id != null);
   const indent = "  ".repeat(depth);
-  svgParts.push(`${indent}<g clip-path="url(#${clipId})">`);
-  renderElement(state, el, depth, parentDisplayForEl, phase);
-  svgParts.push(`${indent}</g>`);
+  for (const clipId of clipIds) svgParts.push(`${indent}<g clip-path="url(#${clipId})">`);
+  // A hoisted flex/grid item is still a flex/grid item where it is painted.
+  renderElement(state, el, depth, parentDisplays.has(el) ? parentDisplays.get(el) : parentDisplayForEl, phase);
+  for (const _ of clipIds) svgParts.push(`${indent}</g>`);
 }
 
 /**
@@ -4417,6 +4423,9 @@ function resolveChildPlan(
   const hoistedAsZSortedForEl = new Set<CapturedElement>();
   if (establishesStackingContext(el, parentDisplayForEl)) {
     childrenForSort = gatherStackingContextChildren(el.children, hoistedFromAncestor, childDisplay, hoistedAsInlineForEl, overflowClipForHoisted, hoistedAsZSortedForEl);
+  } else if (isNonPositionedFloat(el) || paintsAtomicallyAsInlineBox(el, parentDisplayForEl)
+    || (el.styles.position != null && el.styles.position !== "static")) {
+    childrenForSort = gatherPseudoContextChildren(el.children, hoistedFromAncestor, childDisplay, overflowClipForHoisted);
   } else {
     childrenForSort = el.children.filter((c) => !hoistedFromAncestor.has(c));
   }
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index 116c234..30f8f38 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -46,7 +46,11 @@
 import type { CapturedElement } from "../capture/types.js";
 import {
   establishesStackingContext,
+  gatherPseudoContextChildren,
   gatherStackingContextChildren,
+  isNonPositionedFloat,
+  paintsAtomicallyAsInlineBox,
+  clipsOverflow,
   isFixedContainingBlock,
   compositesFixedDescendants,
   sortChildrenByPaintOrder,
@@ -60,12 +64,6 @@ interface HitEntry {
   clips: ClipRect[];
 }
 
-function overflowClips(el: CapturedElement): boolean {
-  const s = el.styles;
-  return (s.overflowX != null && s.overflowX !== "visible")
-    || (s.overflowY != null && s.overflowY !== "visible");
-}
-
 function rectOf(el: CapturedElement): ClipRect {
   return { x: el.x, y: el.y, w: el.width, h: el.height };
 }
@@ -89,7 +87,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   for (const e of elements) normalize(e);
   const out: HitEntry[] = [];
   const hoisted = new Set<CapturedElement>();
-  const clipForHoisted = new Map<CapturedElement, CapturedElement>();
+  const clipForHoisted = new Map<CapturedElement, CapturedElement[]>();
 
   const topInline = new Set<CapturedElement>();
   const topZSorted = new Set<CapturedElement>();
@@ -116,16 +114,25 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   }
   const sortedTop = sortChildrenByPaintOrder(topFlat, undefined, undefined, topInline, topZSorted);
 
-  const visit = (el: CapturedElement, parentDisplay: string | undefined, clips: ClipRect[]): void => {
+  const parentDisplays = new Map<CapturedElement, string | undefined>();
+  const recordParentDisplays = (parent: CapturedElement): void => {
+    for (const c of parent.children) { parentDisplays.set(c, parent.styles.display); recordParentDisplays(c); }
+  };
+  elements.forEach(recordParentDisplays);
+  const visit = (el: CapturedElement, clips: ClipRect[]): void => {
+    const parentDisplay = parentDisplays.get(el);
     out.push({ el, clips });
     if (el.children == null || el.children.length === 0) return;
-    const childClips = overflowClips(el) ? [...clips, rectOf(el)] : clips;
+    const childClips = clipsOverflow(el) ? [...clips, rectOf(el)] : clips;
     const display = el.styles.display;
     const inlineForEl = new Set<CapturedElement>();
     const zSortedForEl = new Set<CapturedElement>();
     let childrenForSort: CapturedElement[];
     if (establishesStackingContext(el, parentDisplay)) {
       childrenForSort = gatherStackingContextChildren(el.children, hoisted, display, inlineForEl, clipForHoisted, zSortedForEl);
+    } else if (isNonPositionedFloat(el) || paintsAtomicallyAsInlineBox(el, parentDisplay)
+      || (el.styles.position != null && el.styles.position !== "static")) {
+      childrenForSort = gatherPseudoContextChildren(el.children, hoisted, display, clipForHoisted);
     } else {
       childrenForSort = el.children.filter((c) => !hoisted.has(c));
     }
@@ -139,17 +146,13 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     for (const c of sorted) {
       // A hoisted descendant that escaped an overflow-only scroller keeps
       // that scroller's clip (unless fixed, which escapes overflow clips).
-      const escaped = clipForHoisted.get(c);
-      const cClips = escaped != null && c.styles.position !== "fixed"
-        ? [...childClips, rectOf(escaped)]
-        : childClips;
-      visit(c, display, cClips);
+      const escaped = clipForHoisted.get(c) ?? [];
+      const cClips = escaped.length > 0 ? [...childClips, ...escaped.map(rectOf)] : childClips;
+      visit(c, cClips);
     }
   };
   for (const el of sortedTop) {
-    const escaped = clipForHoisted.get(el);
-    const clips = escaped != null && el.styles.position !== "fixed" ? [rectOf(escaped)] : [];
-    visit(el, undefined, clips);
+    visit(el, (clipForHoisted.get(el) ?? []).map(rectOf));
   }
   return out;
 }
diff --git a/src/render/stacking.ts b/src/render/stacking.ts
index 5b50804..345836e 100644
--- a/src/render/stacking.ts
+++ b/src/render/stacking.ts
@@ -236,7 +236,7 @@ export function gatherStackingContextChildren(
    * emission in the same `<g clip-path>` the ancestor would have wrapped
    * it in had it stayed nested.
    */
-  overflowClipForHoisted?: Map<CapturedElement, CapturedElement>,
+  overflowClipForHoisted?: Map<CapturedElement, CapturedElement[]>,
   /**
    * DM-712: out-parameter populated with flex/grid items that were hoisted
    * because they carry an explicit z-index. Once hoisted, the sort needs
@@ -264,7 +264,7 @@ export function gatherStackingContextChildren(
    * of `.stages { position:relative }`) was rendering before the white
    * `.river-prop` page background and disappeared completely.
    */
-  const collectFromNonSC = (parent: CapturedElement, floatHoistBlocked: boolean = false, currentOverflowAncestor: CapturedElement | null = null): void => {
+  const collectFromNonSC = (parent: CapturedElement, floatHoistBlocked: boolean, path: CapturedElement[]): void => {
     const childParentDisplay = parent.styles.display;
     const parentIsFlexGrid = isFlexOrGridContainerDisplay(childParentDisplay);
     // DM-537: when the parent is a flex/grid container, flex items hoisted
@@ -339,7 +339,11 @@ export function gatherStackingContextChildren(
       // before step-5 content, then walks that content in tree order. Hoisting
       // a flex item into the root inline bucket loses that tree order: an
       // overflowing early item paints over text in later flow siblings.
-      if (positioned || flexGridItemSC || (isFloat && !floatHoistBlocked)) {
+      // A non-positioned stacking context (opacity, isolation, …) paints at
+      // step 6 of its parent context like a positioned one.
+      const cIsOverflowOnly = isOverflowOnlySC(c, childParentDisplay);
+      const nonPositionedSC = !positioned && !cIsOverflowOnly && establishesStackingContext(c, childParentDisplay);
+      if (positioned || flexGridItemSC || nonPositionedSC || (isFloat && !floatHoistBlocked)) {
         out.push(c);
         hoistedOut.add(c);
         // DM-712 / DM-687: a flex/grid item hoisted because of its explicit
@@ -354,13 +358,11 @@ export function gatherStackingContextChildren(
         if (flexGridItemSC && !positioned) {
           hoistedAsZSorted?.add(c);
         }
-        // DM-673: if we hoisted `c` past an overflow-clip ancestor (and
-        // `c` isn't `position:fixed` — which escapes overflow per CSS
-        // Overflow 3 §2.2), remember the ancestor so the renderer can
-        // re-wrap `c` in its clip-path.
-        if (currentOverflowAncestor != null && c.styles.position !== "fixed") {
-          overflowClipForHoisted?.set(c, currentOverflowAncestor);
-        }
+        // DM-673: if we hoisted `c` past overflow-clip ancestors, remember
+        // the ones that clip it so the renderer can re-wrap `c` in their
+        // clip-paths.
+        const clips = clippingAncestors(c, path);
+        if (clips.length > 0) overflowClipForHoisted?.set(c, clips);
       }
       // DM-673: also recurse THROUGH `overflow != visible` SCs whose ONLY
       // SC-creating property is the overflow (per `isOverflowOnlySC`). Per
@@ -369,22 +371,20 @@ export function gatherStackingContextChildren(
       // to the parent SC's step 6 — intermixed in tree order with sibling
       // positioned descendants. Mark `c` as the overflow ancestor so any
       // descendant we hoist further down gets the clip-path applied.
-      const cIsOverflowOnly = isOverflowOnlySC(c);
       if (!establishesStackingContext(c, childParentDisplay) || cIsOverflowOnly) {
         // Block float hoisting from this point downward if `c` itself is a
         // positioned z=auto/0 element — its descendants' floats paint with
         // it atomically, not at the parent SC. Existing float-block state
         // propagates downward too.
-        const cBlocks = (positioned && !hasExplicitZ) || paintsAtomicallyAsInlineBox(c, childParentDisplay);
-        const nextOverflowAncestor = cIsOverflowOnly ? c : currentOverflowAncestor;
-        collectFromNonSC(c, floatHoistBlocked || cBlocks, nextOverflowAncestor);
+        const cBlocks = (positioned && !hasExplicitZ) || isFloat || paintsAtomicallyAsInlineBox(c, childParentDisplay);
+        collectFromNonSC(c, floatHoistBlocked || cBlocks, [...path, c]);
       }
     }
   };
   for (const c of children) {
     if (hoistedOut.has(c)) continue;
     out.push(c);
-    const cIsOverflowOnly = isOverflowOnlySC(c);
+    const cIsOverflowOnly = isOverflowOnlySC(c, parentDisplay);
     if (!establishesStackingContext(c, parentDisplay) || cIsOverflowOnly) {
       // If `c` is a `position:relative/absolute` with `z-index: auto/0` it
       // paints atomically at step 6 — block float hoisting from its subtree
@@ -392,16 +392,76 @@ export function gatherStackingContextChildren(
       const cPositioned = c.styles.position != null && c.styles.position !== "static";
       const cZRaw = c.styles.zIndex;
       const cHasExplicitZ = cZRaw != null && cZRaw !== "" && cZRaw !== "auto";
-      const cBlocksFloats = (cPositioned && !cHasExplicitZ) || paintsAtomicallyAsInlineBox(c, parentDisplay);
-      // DM-673: if `c` is an overflow-only SC, mark `c` as the overflow
-      // ancestor for any positioned descendant we hoist out of it.
-      const nextOverflowAncestor = cIsOverflowOnly ? c : null;
-      collectFromNonSC(c, cBlocksFloats, nextOverflowAncestor);
+      const cBlocksFloats = (cPositioned && !cHasExplicitZ) || isNonPositionedFloat(c) || paintsAtomicallyAsInlineBox(c, parentDisplay);
+      collectFromNonSC(c, cBlocksFloats, [c]);
     }
   }
   return out;
 }
 
+/**
+ * The ancestors among `path` (outermost first, ending with `el`'s parent) whose
+ * overflow clips `el`: those on its containing-block chain (CSS Overflow 3 §2).
+ * An absolutely positioned box escapes the scrollers between it and its nearest
+ * positioned ancestor; a `position: fixed` one escapes them all.
+ */
+function clippingAncestors(el: CapturedElement, path: CapturedElement[]): CapturedElement[] {
+  const clips: CapturedElement[] = [];
+  let position = el.styles.position;
+  for (let i = path.length - 1; i >= 0; i--) {
+    const a = path[i];
+    const positioned = a.styles.position != null && a.styles.position !== "static";
+    if (position === "fixed" && !isFixedContainingBlock(a)) continue;
+    if (position === "absolute" && !positioned && !isFixedContainingBlock(a)) continue;
+    if (clipsOverflow(a)) clips.unshift(a);
+    position = a.styles.position;
+  }
+  return clips;
+}
+
+/** Does `el` clip or scroll its content on either axis? */
+export function clipsOverflow(el: CapturedElement): boolean {
+  const { overflowX: ox, overflowY: oy } = el.styles;
+  return (ox != null && ox !== "" && ox !== "visible") || (oy != null && oy !== "" && oy !== "visible");
+}
+
+/**
+ * The paint list of a box that paints as if it created a stacking context of
+ * its own — a float, an inline-level box, a flex/grid item, a positioned
+ * `z-index: auto` box (CSS 2.1 Appendix E steps 5-8): its children, plus the
+ * floats nested in its in-flow block descendants, which paint in ITS float
+ * phase. Positioned and stacking-context descendants belong to the enclosing
+ * context, which has claimed them already.
+ */
+export function gatherPseudoContextChildren(
+  children: CapturedElement[],
+  hoistedOut: Set<CapturedElement>,
+  parentDisplay?: string,
+  overflowClipForHoisted?: Map<CapturedElement, CapturedElement[]>,
+): CapturedElement[] {
+  const out: CapturedElement[] = [];
+  const collectFloats = (parent: CapturedElement, parentOfParentDisplay: string | undefined, path: CapturedElement[]): void => {
+    if (isNonPositionedFloat(parent) || paintsAtomicallyAsInlineBox(parent, parentOfParentDisplay)) return;
+    for (const c of parent.children) {
+      if (hoistedOut.has(c)) continue;
+      if (isNonPositionedFloat(c) && !isFlexOrGridContainerDisplay(parent.styles.display)) {
+        out.push(c);
+        hoistedOut.add(c);
+        const clips = clippingAncestors(c, path);
+        if (clips.length > 0) overflowClipForHoisted?.set(c, clips);
+      } else {
+        collectFloats(c, parent.styles.display, [...path, c]);
+      }
+    }
+  };
+  for (const c of children) {
+    if (hoistedOut.has(c)) continue;
+    out.push(c);
+    collectFloats(c, parentDisplay, [c]);
+  }
+  return out;
+}
+
 /**
  * DM-673: returns true when `el` is a stacking context whose ONLY reason
  * for being one is `overflow != visible`. Such elements are scroll
@@ -422,7 +482,7 @@ export function gatherStackingContextChildren(
  * filter, opacity, etc.), we still keep them atomic — their descendants
  * are contained by the layer, matching Chrome's behavior.
  */
-export function isOverflowOnlySC(el: CapturedElement): boolean {
+export function isOverflowOnlySC(el: CapturedElement, parentDisplay?: string): boolean {
   const s = el.styles;
   const transformRelated = transformRelatedCreatesStackingBoundary(el);
   // An animation target must stay atomic so its descendants render INSIDE its
@@ -436,8 +496,9 @@ export function isOverflowOnlySC(el: CapturedElement): boolean {
   const overflowIsSC = (ox != null && ox !== "visible") || (oy != null && oy !== "visible");
   if (!overflowIsSC) return false;
   // Must have NO other SC-creating property
+  if (s.position === "fixed" || s.position === "sticky") return false;
   const positioned = s.position != null && s.position !== "static";
-  if (positioned) return false;
+  if ((positioned || isFlexOrGridContainerDisplay(parentDisplay)) && s.zIndex != null && s.zIndex !== "" && s.zIndex !== "auto") return false;
   if (transformRelated && s.transform != null && s.transform !== "" && s.transform !== "none") return false;
   if (transformRelated && s.transformCreatesSc) return false;
   if (transformRelated && s.transformStyle != null && s.transformStyle !== "" && s.transformStyle !== "flat") return false;
@@ -680,7 +741,10 @@ export function paintOrderBuckets(
     const flt = c.styles.float ?? "none";
     const zRaw = c.styles.zIndex;
     const positioned = pos != null && pos !== "static";
-    const z = zRaw === "auto" || zRaw === "" || zRaw == null ? NaN : parseInt(zRaw, 10);
+    // `z-index` has no effect on a non-positioned box that is not a flex/grid item.
+    const isItem = isFlexGrid && (directChildren == null || directChildren.has(c));
+    const zApplies = positioned || isItem || paintAsZSorted?.has(c) === true;
+    const z = !zApplies || zRaw === "auto" || zRaw === "" || zRaw == null ? NaN : parseInt(zRaw, 10);
     // DM-939: per CSS 2.1 Appendix E step 6 a non-positioned element that
     // STILL establishes a stacking context (transform, opacity < 1,
     // filter, mix-blend-mode, mask, clip-path, isolation, will-change, …)
@@ -694,9 +758,9 @@ export function paintOrderBuckets(
     // (DM-673), so exclude them from this hoisting.
     const isNonPosSc = !positioned
       && establishesStackingContext(c, parentDisplay)
-      && !isOverflowOnlySC(c);
+      && !isOverflowOnlySC(c, parentDisplay);
     const treatAsZSorted = positioned
-      || (isFlexGrid && !isNaN(z))
+      || (isItem && !isNaN(z))
       || (paintAsZSorted?.has(c) === true)
       || isNonPosSc;
     if (!treatAsZSorted && flt !== "none") {
-- 
2.43.0


From 3cf2f60a481d9d19d8d8351cd89f3e1ef0104bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:14 +0000
Subject: [PATCH 41/95] fix: a position: fixed box in a stacking context keeps
 that context's place in the stacking order

---
 src/render/element-tree-to-svg.ts | 17 +++++++++++------
 src/render/paint-order.ts         | 15 ++++++++++-----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index dea5025..2a5eb90 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -22,7 +22,7 @@ import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js"
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
-import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, gatherPseudoContextChildren, isNonPositionedFloat, isOverflowOnlySC, isFixedContainingBlock, compositesFixedDescendants, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
+import { isFlexOrGridContainerDisplay, establishesStackingContext, gatherStackingContextChildren, gatherPseudoContextChildren, isNonPositionedFloat, isOverflowOnlySC, clipsOverflow, isFixedContainingBlock, compositesFixedDescendants, paintOrderBuckets, paintsAtomicallyAsInlineBox, type PaintOrderBuckets } from "./stacking.js";
 export { parseGradientStops, buildRadialGradientDef, parseBgPositionPx } from "./gradient-defs.js"; // re-export for existing test importers
 import { buildMaskDef, buildMaskBorder9Slice, positionFragmentMaskDef, positionFragmentClipPathDef, rewriteFragmentMaskDef } from "./mask.js";
 // Re-export mask helpers used by focused geometry/emission tests.
@@ -3381,7 +3381,12 @@ function elementTreeToSvgInnerImpl(
   // the reference section's pin should hit the viewport; the pins under
   // .frame-transform / .frame-filter / .frame-will / .frame-contain stay
   // trapped to .frame.
-  const collectViewportFixed = (parent: CapturedElement): void => {
+  // A stacking context that does not clip keeps its fixed descendants: they
+  // escape clips, not the stacking order of the contexts they are in.
+  const keepsFixed = (el: CapturedElement, parentDisplay: string | undefined): boolean =>
+    isFixedContainingBlock(el) || compositesFixedDescendants(el)
+    || (!clipsOverflow(el) && establishesStackingContext(el, parentDisplay));
+  const collectViewportFixed = (parent: CapturedElement, clipped: boolean): void => {
     for (const c of parent.children) {
       if (c.styles.position === "fixed") {
         if (!hoistedFromAncestor.has(c)) {
@@ -3389,16 +3394,16 @@ function elementTreeToSvgInnerImpl(
           hoistedFromAncestor.add(c);
         }
         // c is its own SC root; descendants render via c's renderElement.
-      } else if (!isFixedContainingBlock(c) && !compositesFixedDescendants(c)) {
-        collectViewportFixed(c);
+      } else if (clipped ? !isFixedContainingBlock(c) && !compositesFixedDescendants(c) : !keepsFixed(c, parent.styles.display)) {
+        collectViewportFixed(c, clipped || clipsOverflow(c));
       }
       // else: c is a fixed-CB (or composites its subtree as one group); fixed
       // descendants stay within c's subtree.
     }
   };
   for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e) && !compositesFixedDescendants(e)) {
-      collectViewportFixed(e);
+    if (e.styles.position !== "fixed" && !keepsFixed(e, undefined)) {
+      collectViewportFixed(e, clipsOverflow(e));
     }
   }
   // The implicit document root stacking context paints in the same phased
diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index 30f8f38..01e05bc 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -95,21 +95,26 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
   // Viewport-fixed pull — mirror of the renderer's collectViewportFixed
   // (position:fixed paints in the viewport SC and escapes ancestor clips,
   // unless trapped by a fixed-containing-block ancestor).
-  const collectViewportFixed = (parent: CapturedElement): void => {
+  // A stacking context that does not clip keeps its fixed descendants: they
+  // escape clips, not the stacking order of the contexts they are in.
+  const keepsFixed = (el: CapturedElement, parentDisplay: string | undefined): boolean =>
+    isFixedContainingBlock(el) || compositesFixedDescendants(el)
+    || (!clipsOverflow(el) && establishesStackingContext(el, parentDisplay));
+  const collectViewportFixed = (parent: CapturedElement, clipped: boolean): void => {
     for (const c of parent.children ?? []) {
       if (c.styles.position === "fixed") {
         if (!hoisted.has(c)) {
           topFlat.push(c);
           hoisted.add(c);
         }
-      } else if (!isFixedContainingBlock(c) && !compositesFixedDescendants(c)) {
-        collectViewportFixed(c);
+      } else if (clipped ? !isFixedContainingBlock(c) && !compositesFixedDescendants(c) : !keepsFixed(c, parent.styles.display)) {
+        collectViewportFixed(c, clipped || clipsOverflow(c));
       }
     }
   };
   for (const e of elements) {
-    if (e.styles.position !== "fixed" && !isFixedContainingBlock(e) && !compositesFixedDescendants(e)) {
-      collectViewportFixed(e);
+    if (e.styles.position !== "fixed" && !keepsFixed(e, undefined)) {
+      collectViewportFixed(e, clipsOverflow(e));
     }
   }
   const sortedTop = sortChildrenByPaintOrder(topFlat, undefined, undefined, topInline, topZSorted);
-- 
2.43.0


From 83d8dc4c9e28e6244ef6a0379450f1058e7803a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:24 +0000
Subject: [PATCH 42/95] fix: hit-testing clips at the padding box and honours
 paint containment

---
 src/render/paint-order.ts | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/render/paint-order.ts b/src/render/paint-order.ts
index 01e05bc..52ab207 100644
--- a/src/render/paint-order.ts
+++ b/src/render/paint-order.ts
@@ -64,8 +64,21 @@ interface HitEntry {
   clips: ClipRect[];
 }
 
+/** The padding box: what an overflow or paint-containment clip cuts content to. */
 function rectOf(el: CapturedElement): ClipRect {
-  return { x: el.x, y: el.y, w: el.width, h: el.height };
+  const px = (v: string | undefined): number => parseFloat(v ?? "0") || 0;
+  const top = px(el.styles.borderTopWidth), left = px(el.styles.borderLeftWidth);
+  return {
+    x: el.x + left,
+    y: el.y + top,
+    w: el.width - left - px(el.styles.borderRightWidth),
+    h: el.height - top - px(el.styles.borderBottomWidth),
+  };
+}
+
+function clipsContent(el: CapturedElement): boolean {
+  if (el.tag === "body") return false; // propagated to the viewport
+  return clipsOverflow(el) || /\b(?:paint|strict|content)\b/i.test(el.styles.contain ?? "");
 }
 
 /**
@@ -128,7 +141,7 @@ export function paintOrderHitSequence(elements: CapturedElement[]): HitEntry[] {
     const parentDisplay = parentDisplays.get(el);
     out.push({ el, clips });
     if (el.children == null || el.children.length === 0) return;
-    const childClips = clipsOverflow(el) ? [...clips, rectOf(el)] : clips;
+    const childClips = clipsContent(el) ? [...clips, rectOf(el)] : clips;
     const display = el.styles.display;
     const inlineForEl = new Set<CapturedElement>();
     const zSortedForEl = new Set<CapturedElement>();
-- 
2.43.0


From bdeaefa89e208c33eb0e5d62529211e651cbd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 43/95] fix: outline a box whose corner radii differ with each
 corner's own radius

---
 src/render/element-tree-to-svg.ts | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 2a5eb90..c68d8e1 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -2956,7 +2956,7 @@ function paintThinDottedLine(
 // Outline paint phase, extracted from elementTreeToSvgInner (DM-1306). Reads only
 // el + the resolved borderRadius + indent; appends to no shared state, so it
 // returns its <rect>/<line> markup for the caller to push. Behaviour-identical.
-function paintOutline(el: CapturedElement, borderRadius: number, indent: string): string[] {
+function paintOutline(el: CapturedElement, borderRadius: number, corners: CornerRadii, indent: string): string[] {
   const out: string[] = [];
   const ow = parseFloat(el.styles.outlineWidth ?? "0") || 0;
   const ostyle = el.styles.outlineStyle ?? "none";
@@ -2991,6 +2991,15 @@ function paintOutline(el: CapturedElement, borderRadius: number, indent: string)
       // Outline radius: CSS spec says rounded outlines follow the border
       // radius extended outward by the offset+width. Approximate.
       const oRadius = borderRadius > 0 ? borderRadius + inflate : 0;
+      // Corners that differ keep their own outset radii; one shared `rx` only
+      // describes four equal corners. `grow` is the stripe's inner edge.
+      const perCornerRing = (grow: number, stripe: number): string => {
+        const edge = (g: number): string => roundedRectPath(
+          el.x - g, el.y - g, Math.max(0, el.width + 2 * g), Math.max(0, el.height + 2 * g),
+          outsetCornerRadiiForShadow(corners, g),
+        );
+        return `${indent}<path d="${edge(grow + stripe)} ${edge(grow)}" fill="${colorStr(ocolor)}" fill-rule="evenodd" />`;
+      };
       if (ostyle === "double" && ow >= 3) {
         // Chromium's PaintDoubleOutline (third_party/blink/renderer/core/
         // paint/outline_painter.cc): stroke_width = round(width / 3).
@@ -3006,6 +3015,10 @@ function paintOutline(el: CapturedElement, borderRadius: number, indent: string)
         // visually-merged stroke. (DM-443.)
         const sw = Math.round(ow / 3);
         const half = (ow - sw) / 2;
+        if (!corners.uniform) {
+          out.push(perCornerRing(offset + ow - sw, sw), perCornerRing(offset, sw));
+          return out;
+        }
         const outerR = Math.max(0, oRadius + half);
         const innerR = Math.max(0, oRadius - half);
         out.push(
@@ -3057,6 +3070,8 @@ function paintOutline(el: CapturedElement, borderRadius: number, indent: string)
             `${indent}<line x1="${r(ox)}" y1="${r(oy)}" x2="${r(ox)}" y2="${r(oyB)}" ${strokeAttrs}${vAttrs}${linecap} />`,
           );
         }
+      } else if (!corners.uniform && ostyle !== "dashed" && ostyle !== "dotted") {
+        out.push(perCornerRing(offset, ow));
       } else {
         let dash = dashArrayForStyle(ostyle, ow);
         const linecap = ostyle === "dotted" ? ` stroke-linecap="round"` : "";
@@ -5372,7 +5387,7 @@ function renderElement(state: RenderState, el: CapturedElement, depth: number, p
   // the captured rect is the border-box, so we inflate from that. Outline
   // styles (solid / dashed / dotted) reuse dashArrayForStyle.
   if (paintBoxPhase) {
-    svgParts.push(...paintOutline(el, borderRadius, indent));
+    svgParts.push(...paintOutline(el, borderRadius, corners, indent));
   }
 
   // The children's paint-step buckets, resolved once for both phases.
-- 
2.43.0


From b5434fac9e159bc4a1b8851548f195e045e1660b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 44/95] fix: clip the background colour by background-clip, and
 curve a content-box layer's corners by its padding

---
 src/render/element-tree-to-svg.ts | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index c68d8e1..88a30bf 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -564,9 +564,26 @@ function paintBackgroundColor(
   if (useInlineFragments) {
     // background painted per-fragment in renderInlineFragments above
   } else if (!suppressEmptyCell && bgColor != null && bgColor.a > 0.01) {
-    out.push(
-      `${indent}${roundedRectSvg(el.x, el.y, el.width, el.height, corners, `fill="${colorStr(bgColor)}"`)}`,
-    );
+    // The color is clipped by the bottom layer's background-clip (CSS
+    // Backgrounds 3 §2.2): that layer's entry, with shorter lists cycling.
+    const bgImage = el.styles.backgroundImage ?? "none";
+    const clipKey = cyclicBackgroundLayer(
+      splitTopLevelCommas(el.styles.backgroundClip ?? "border-box"),
+      Math.max(0, splitTopLevelCommas(bgImage).length - 1),
+      "border-box",
+    ).trim();
+    const px = (v: string | undefined): number => parseFloat(v ?? "0") || 0;
+    const insets = clipKey === "padding-box" || clipKey === "content-box"
+      ? (["Top", "Right", "Bottom", "Left"] as const).map((side) =>
+          px(el.styles[`border${side}Width`]) + (clipKey === "content-box" ? px(el.styles[`padding${side}`]) : 0))
+      : [0, 0, 0, 0];
+    const [t, ri, b, l] = insets;
+    const w = el.width - l - ri;
+    const h = el.height - t - b;
+    if (w > 0 && h > 0) {
+      const clipCorners = insets.some((v) => v > 0) ? insetCornerRadii(corners, t, ri, b, l) : corners;
+      out.push(`${indent}${roundedRectSvg(el.x + l, el.y + t, w, h, clipCorners, `fill="${colorStr(bgColor)}"`)}`);
+    }
   } else if (!suppressEmptyCell && el.styles.frostedBgFallback != null) {
     // DM-476: backdrop-filter has no SVG equivalent, so when this element
     // would have read as a frosted-glass surface in Chromium (transparent
@@ -2255,7 +2272,9 @@ function paintBackgroundImageLayers(
       // semantics (rTL.h shrinks by bwL, rTL.v shrinks by bwT, etc.).
       const innerCorners = layerClip === "border-box"
         ? corners
-        : insetCornerRadii(corners, bwT, bwR, bwB, bwL);
+        : layerClip === "content-box"
+          ? insetCornerRadii(corners, bwT + padT, bwR + padR, bwB + padB, bwL + padL)
+          : insetCornerRadii(corners, bwT, bwR, bwB, bwL);
       // CSS Compositing §6.1: every image layer uses its corresponding
       // background-blend-mode, including the bottom image layer as it blends
       // with the background color painted beneath it.
-- 
2.43.0


From f2b90c36f601626ae95d6b85ba48aa5fbdf5640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 45/95] fix: paint a uniform border with an elliptical or small
 radius as a ring rather than a centreline stroke

---
 src/render/element-tree-to-svg.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 88a30bf..77b82b0 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -1618,7 +1618,11 @@ function paintUniformSolidBorder(
   // inner ContouredRects. An SVG centerline stroke cannot represent a concave
   // contour (it protrudes on the wrong side of a scoop/notch), so preserve the
   // same two vector boundaries and fill the annulus with even-odd winding.
-  if (hasNonRoundContour && !collapse && bt.style === "solid") {
+  // A centerline stroke also only offsets a circular corner exactly, and squares
+  // off an outer radius smaller than half the border; those take the same path.
+  const strokeIsExact = [corners.tl, corners.tr, corners.br, corners.bl]
+    .every((c) => (c.h === c.v && c.h >= half) || c.h === 0 || c.v === 0);
+  if ((hasNonRoundContour || !strokeIsExact) && !collapse && bt.style === "solid") {
     const outer = roundedRectPath(boxLeft, boxTop, boxRight - boxLeft, boxBottom - boxTop, corners);
     const innerCorners = insetCornerRadii(corners, bt.w, bt.w, bt.w, bt.w);
     const innerX = boxLeft + bt.w, innerY = boxTop + bt.w;
-- 
2.43.0


From 07a055f163ec1d22bfa83bdae55a13b8b33821fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 46/95] fix: gradient stops outside 0-100%, coincident stops
 and unpositioned stops follow CSS Images 3

---
 src/render/gradient-defs.ts | 46 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/render/gradient-defs.ts b/src/render/gradient-defs.ts
index dd96628..90f31cf 100644
--- a/src/render/gradient-defs.ts
+++ b/src/render/gradient-defs.ts
@@ -173,23 +173,30 @@ export function buildLinearGradientDef(id: string, args: string, repeating: bool
   // it across the rest of the box. SVG's repeat mode only repeats *outside*
   // the [0,1] range of the gradient vector, so a tile defined inside [0, 0.07]
   // of the full L would leave most of the box solid. Setting the vector to
-  // one period instead makes the entire [0,1] range one tile.
+  // one period instead makes the entire [0,1] range one tile. SVG also clamps
+  // stop offsets to [0,1], so stops positioned before the start or past the end
+  // of the gradient line need the same treatment, repeating or not.
   let vx1 = x1, vy1 = y1, vx2 = x2, vy2 = y2;
   let emitStops = stops;
-  if (repeating && stops.length >= 2) {
-    const first = stops[0].pos;
-    const last = stops[stops.length - 1].pos;
-    const period = last - first;
-    if (period > 0 && period < 1) {
-      vx1 = x1 + first * (x2 - x1);
-      vy1 = y1 + first * (y2 - y1);
-      vx2 = x1 + last * (x2 - x1);
-      vy2 = y1 + last * (y2 - y1);
-      emitStops = stops.map((s) => ({ ...s, pos: (s.pos - first) / period }));
-    }
+  let repeats = repeating;
+  const firstPos = stops[0].pos;
+  const lastPos = stops[stops.length - 1].pos;
+  const period = lastPos - firstPos;
+  if (period > 0 && (repeating || firstPos < 0 || lastPos > 1)) {
+    vx1 = x1 + firstPos * (x2 - x1);
+    vy1 = y1 + firstPos * (y2 - y1);
+    vx2 = x1 + lastPos * (x2 - x1);
+    vy2 = y1 + lastPos * (y2 - y1);
+    emitStops = stops.map((s) => ({ ...s, pos: (s.pos - firstPos) / period }));
+  } else if (period <= 0 && (repeating || firstPos < 0 || firstPos > 1)) {
+    // Every stop on one point: a repeating gradient is its last color, any other
+    // is a step that happens outside the line and so leaves one color in view.
+    const solid = !repeating && firstPos > 1 ? stops[0] : stops[stops.length - 1];
+    emitStops = [{ ...solid, pos: 0 }, { ...solid, pos: 1 }];
+    repeats = false;
   }
 
-  const spread = repeating ? ` spreadMethod="repeat"` : "";
+  const spread = repeats ? ` spreadMethod="repeat"` : "";
   // Stop offsets need 4 decimals of precision — rounding 0.33 to 0.3 would turn
   // three equal thirds into uneven bands. Use stopFmt, not r(), here.
   const stopsMarkup = normalizeTransparentStops(emitStops).map((s) => `<stop offset="${stopFmt(s.pos)}" stop-color="${colorStr(s.color)}" />`).join("");
@@ -599,6 +606,15 @@ export function parseGradientStops(tokens: string[], gradientLength: number = 0)
   if (isNaN(stops[0].pos)) stops[0].pos = 0;
   if (isNaN(stops[stops.length - 1].pos)) stops[stops.length - 1].pos = 1;
 
+  // CSS Images 3 §3.5.1 step 2, before the unpositioned stops are spread out:
+  // no stop may sit before an earlier positioned one.
+  let furthest = -Infinity;
+  for (const stop of stops) {
+    if (isNaN(stop.pos)) continue;
+    furthest = Math.max(furthest, stop.pos);
+    stop.pos = furthest;
+  }
+
   // Fill interior NaN positions by evenly distributing between the nearest
   // resolved neighbors — matches CSS behavior for implicit stops.
   let i = 0;
@@ -612,10 +628,6 @@ export function parseGradientStops(tokens: string[], gradientLength: number = 0)
     for (let k = 0; k < j - i; k++) stops[i + k].pos = left + ((k + 1) / count) * (right - left);
     i = j;
   }
-  // Monotonic clamp: each stop >= previous (CSS rule).
-  for (let k = 1; k < stops.length; k++) {
-    if (stops[k].pos < stops[k - 1].pos) stops[k].pos = stops[k - 1].pos;
-  }
 
   // Blink replaces every interpolation hint with exactly nine ordinary stops
   // (`ReplaceColorHintsWithColorStops`, css_gradient_value.cc:266-399,
-- 
2.43.0


From ee80419e42ff9a6a46a1de58c00731c266ebfcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 47/95] fix: linear and radial gradients honour
 background-size, background-position and background-repeat

---
 src/render/element-tree-to-svg.ts | 51 ++++++++++++++++++++++-
 src/render/image-pattern.ts       | 69 ++++++++++++++++++++-----------
 2 files changed, 95 insertions(+), 25 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 77b82b0..92ae5a5 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -18,7 +18,7 @@ import { renderFileSelectorOutsetShadow, renderFormControl } from "./form-contro
 import { CAPTURE_SCRIPT } from "../capture/script.generated.js";
 import { r, esc, stopFmt, rootSvgA11y } from "./format.js";
 import { clipPathShapeForElement, translateClipPath } from "./clip-path.js";
-import { buildImagePatternDef, cyclicBackgroundLayer } from "./image-pattern.js";
+import { buildImagePatternDef, capturedBackgroundNaturalSizing, cyclicBackgroundLayer, resolveBackgroundPatternFrame } from "./image-pattern.js";
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
 import { advancedGradientTile, needsChromiumGradientRaster } from "./advanced-gradient-raster.js";
 import { computeTileSize } from "./conic-raster.js";
@@ -5837,6 +5837,11 @@ function buildBackgroundLayerDef(
     }
     console.warn(`[domotion] Chromium raster tile unavailable for advanced gradient; using best-effort SVG interpolation: ${layer}`);
   }
+  const tiled = buildTiledGradientDef(
+    id, layer, { x: gradX, y: gradY, width: gradW, height: gradH },
+    paintingArea ?? { x: elX, y: elY, width: w, height: h }, sizeCss, posCss, repeatCss,
+  );
+  if (tiled != null) return { def: tiled };
   const linear = /^(?:repeating-)?linear-gradient\((.+)\)$/i.exec(layer);
   if (linear != null) {
     const repeating = /^repeating-/i.test(layer);
@@ -5878,6 +5883,50 @@ function buildBackgroundLayerDef(
   return { def: "" };
 }
 
+/**
+ * A linear / radial gradient whose tile is not the whole positioning area
+ * (`background-size`), or does not start at its origin (`background-position`),
+ * or has to repeat to reach the painting area: a `<pattern>` holding one tile
+ * filled with the gradient, laid out by the same geometry as a url() layer.
+ * Returns null when one gradient across the positioning area is the same paint.
+ */
+function buildTiledGradientDef(
+  id: string, layer: string,
+  positioningArea: { x: number; y: number; width: number; height: number },
+  paintingArea: { x: number; y: number; width: number; height: number },
+  sizeCss: string, posCss: string, repeatCss: string,
+): string | null {
+  const match = /^(repeating-)?(linear|radial)-gradient\((.+)\)$/i.exec(layer);
+  if (match == null) return null;
+  const frame = resolveBackgroundPatternFrame(
+    positioningArea, paintingArea, sizeCss, posCss, repeatCss, capturedBackgroundNaturalSizing(null, null),
+  );
+  if (frame == null) return "";
+  const covers = (axis: "x" | "y", size: "width" | "height"): boolean => {
+    const tile = frame.tile[size], extent = positioningArea[size];
+    const lead = (frame.tile[axis] + frame.pattern[axis] - positioningArea[axis]) % extent;
+    return Math.abs(tile - extent) < 0.05 && Math.min(Math.abs(lead), extent - Math.abs(lead)) < 0.05
+      && paintingArea[axis] >= positioningArea[axis] - 0.05
+      && paintingArea[axis] + paintingArea[size] <= positioningArea[axis] + extent + 0.05;
+  };
+  if (covers("x", "width") && covers("y", "height")) return null;
+  const gradientId = `${id}g`;
+  // Anchor the repeating frame at the tile nearest the positioning area; the
+  // viewBox keeps that tile's content in absolute coordinates.
+  const anchor = (axis: "x" | "y", size: "width" | "height"): number => frame.pattern[axis]
+    + Math.round((positioningArea[axis] - frame.pattern[axis]) / frame.pattern[size]) * frame.pattern[size];
+  const pattern = { ...frame.pattern, x: anchor("x", "width"), y: anchor("y", "height") };
+  const { width, height } = frame.tile;
+  const x = pattern.x + frame.tile.x;
+  const y = pattern.y + frame.tile.y;
+  const gradient = match[2].toLowerCase() === "linear"
+    ? buildLinearGradientDef(gradientId, match[3], match[1] != null, width, height, x, y)
+    : buildRadialGradientDef(gradientId, match[3], match[1] != null, x, y, width, height);
+  if (gradient === "") return "";
+  const box = [pattern.x, pattern.y, pattern.width, pattern.height].map(stopFmt);
+  return `${gradient}<pattern id="${id}" patternUnits="userSpaceOnUse" x="${box[0]}" y="${box[1]}" width="${box[2]}" height="${box[3]}" viewBox="${box.join(" ")}" preserveAspectRatio="none"><rect x="${stopFmt(x)}" y="${stopFmt(y)}" width="${stopFmt(width)}" height="${stopFmt(height)}" fill="url(#${gradientId})" /></pattern>`;
+}
+
 /**
  * DM-550: Emit a `<pattern><image href="data:image/png;base64,…"/></pattern>`
  * for a single conic-gradient background layer. Looks up the PNG bytes in
diff --git a/src/render/image-pattern.ts b/src/render/image-pattern.ts
index be2a060..daa9575 100644
--- a/src/render/image-pattern.ts
+++ b/src/render/image-pattern.ts
@@ -613,39 +613,27 @@ export function cyclicBackgroundLayer<T>(layers: readonly T[], index: number, fa
   return layers.length === 0 ? fallback : layers[index % layers.length] ?? fallback;
 }
 
-/** Compute the tile geometry and emit the exact vector pattern. */
-export function buildImagePatternDef(
-  id: string,
-  href: string,
-  elX: number,
-  elY: number,
-  width: number,
-  height: number,
+/** The `<pattern>` box for one background layer, and the tile's rect inside it.
+ * Null when nothing of the layer is visible or its geometry is not provable. */
+export function resolveBackgroundPatternFrame(
+  positioningArea: BackgroundRect,
+  paint: BackgroundRect,
   sizeCss: string,
   posCss: string,
   repeatCss: string,
-  intrinsic: { w: number; h: number } | null,
-  attachment = "scroll",
-  fixedViewport: { w: number; h: number } | null = null,
-  selectedImage: CapturedBackgroundImage | null = null,
-  paintingArea: BackgroundRect | null = null,
-): string {
-  const fixed = attachment === "fixed" && fixedViewport != null;
-  const positioningArea = fixed
-    ? { x: 0, y: 0, width: fixedViewport.w, height: fixedViewport.h }
-    : { x: elX, y: elY, width, height };
-  const paint = paintingArea ?? { x: elX, y: elY, width, height };
+  natural: BackgroundNaturalSizing,
+): { pattern: BackgroundRect; tile: BackgroundRect } | null {
   const geometry = resolveBlinkBackgroundImageGeometry({
     positioningArea,
     paintingArea: paint,
     size: sizeCss,
     position: posCss,
     repeat: repeatCss,
-    natural: capturedBackgroundNaturalSizing(selectedImage, intrinsic),
+    natural,
   });
   if (geometry == null || geometry.tileSize.width <= 0 || geometry.tileSize.height <= 0
       || geometry.snappedDestination.width <= 0 || geometry.snappedDestination.height <= 0) {
-    return "";
+    return null;
   }
 
   const noRepeatX = geometry.repeat.x === "no-repeat";
@@ -654,14 +642,47 @@ export function buildImagePatternDef(
   const patternY = noRepeatY ? paint.y : geometry.snappedDestination.y + geometry.phase.y;
   const patternWidth = noRepeatX ? paint.width : geometry.tileSize.width + geometry.spacing.width;
   const patternHeight = noRepeatY ? paint.height : geometry.tileSize.height + geometry.spacing.height;
-  if (patternWidth <= 0 || patternHeight <= 0) return "";
+  if (patternWidth <= 0 || patternHeight <= 0) return null;
   const imageX = noRepeatX
     ? geometry.snappedDestination.x + geometry.phase.x - patternX
     : 0;
   const imageY = noRepeatY
     ? geometry.snappedDestination.y + geometry.phase.y - patternY
     : 0;
-  const embeddedHref = embedResizedDataUri(href, geometry.tileSize.width, geometry.tileSize.height);
+  return {
+    pattern: { x: patternX, y: patternY, width: patternWidth, height: patternHeight },
+    tile: { x: imageX, y: imageY, width: geometry.tileSize.width, height: geometry.tileSize.height },
+  };
+}
+
+/** Compute the tile geometry and emit the exact vector pattern. */
+export function buildImagePatternDef(
+  id: string,
+  href: string,
+  elX: number,
+  elY: number,
+  width: number,
+  height: number,
+  sizeCss: string,
+  posCss: string,
+  repeatCss: string,
+  intrinsic: { w: number; h: number } | null,
+  attachment = "scroll",
+  fixedViewport: { w: number; h: number } | null = null,
+  selectedImage: CapturedBackgroundImage | null = null,
+  paintingArea: BackgroundRect | null = null,
+): string {
+  const fixed = attachment === "fixed" && fixedViewport != null;
+  const positioningArea = fixed
+    ? { x: 0, y: 0, width: fixedViewport.w, height: fixedViewport.h }
+    : { x: elX, y: elY, width, height };
+  const paint = paintingArea ?? { x: elX, y: elY, width, height };
+  const frame = resolveBackgroundPatternFrame(
+    positioningArea, paint, sizeCss, posCss, repeatCss, capturedBackgroundNaturalSizing(selectedImage, intrinsic),
+  );
+  if (frame == null) return "";
+  const { pattern, tile } = frame;
+  const embeddedHref = embedResizedDataUri(href, tile.width, tile.height);
   const embeddedKind = /^data:image\/svg\+xml(?:[;,])/i.test(embeddedHref)
     ? "svg"
     : /^data:image\//i.test(embeddedHref) ? "bitmap" : null;
@@ -671,5 +692,5 @@ export function buildImagePatternDef(
   // CSS tile; bitmap images instead stretch to both concrete tile axes. The
   // old unconditional `none` lost SVG letterboxing for non-ratio tile sizes.
   const aspect = imageKind === "svg" ? "" : ' preserveAspectRatio="none"';
-  return `<pattern id="${id}" patternUnits="userSpaceOnUse" x="${layoutNumber(patternX)}" y="${layoutNumber(patternY)}" width="${layoutNumber(patternWidth)}" height="${layoutNumber(patternHeight)}"><image href="${esc(embeddedHref)}" x="${layoutNumber(imageX)}" y="${layoutNumber(imageY)}" width="${layoutNumber(geometry.tileSize.width)}" height="${layoutNumber(geometry.tileSize.height)}"${aspect} /></pattern>`;
+  return `<pattern id="${id}" patternUnits="userSpaceOnUse" x="${layoutNumber(pattern.x)}" y="${layoutNumber(pattern.y)}" width="${layoutNumber(pattern.width)}" height="${layoutNumber(pattern.height)}"><image href="${esc(embeddedHref)}" x="${layoutNumber(tile.x)}" y="${layoutNumber(tile.y)}" width="${layoutNumber(tile.width)}" height="${layoutNumber(tile.height)}"${aspect} /></pattern>`;
 }
-- 
2.43.0


From bb10e265cd8cf874c463a462bf42976878224c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:19 +0000
Subject: [PATCH 48/95] fix: box-shadow is cut out under the border box, keeps
 its whole blur, and insets without blur or spread are painted

---
 src/render/element-tree-to-svg.ts | 79 ++++++++++++++++---------------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 92ae5a5..4ea13fe 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -359,6 +359,15 @@ interface ChildPaintPlan {
   flat3d: CapturedElement[] | null;
 }
 
+const SHARP_CORNERS: CornerRadii = { tl: { h: 0, v: 0 }, tr: { h: 0, v: 0 }, br: { h: 0, v: 0 }, bl: { h: 0, v: 0 }, uniform: true };
+
+/** Blur filter for a shadow shape, with a region wide enough (3 sigma) for the
+ *  whole Gaussian fall-off whatever the shape's own size. */
+function shadowBlurFilter(id: string, stdDev: number, x: number, y: number, w: number, h: number): string {
+  const reach = Math.ceil(stdDev * 3);
+  return `<filter id="${id}" filterUnits="userSpaceOnUse" x="${r(x - reach)}" y="${r(y - reach)}" width="${r(w + reach * 2)}" height="${r(h + reach * 2)}"><feGaussianBlur stdDeviation="${r(stdDev)}"/></filter>`;
+}
+
 function paintBoxShadow(
   ctx: PaintCtx,
   el: CapturedElement,
@@ -366,6 +375,9 @@ function paintBoxShadow(
   indent: string,
 ): void {
   const shadows = parseBoxShadow(el.styles.boxShadow ?? "none");
+  // An opaque background hides whatever part of the shadow lies under the box.
+  const opaqueBox = (parseColor(el.styles.backgroundColor)?.a ?? 0) >= 1
+    && !/padding-box|content-box|text/.test(el.styles.backgroundClip ?? "");
   for (let si = shadows.length - 1; si >= 0; si--) {
     const sh = shadows[si];
     if (sh.inset) continue;
@@ -389,18 +401,25 @@ function paintBoxShadow(
     if (sh.blur > 0) {
       const stdDev = sh.blur / 2;
       const fid = ctx.nextClipId("sh");
-      // Filter region needs to extend beyond the shadow rect by enough
-      // padding to keep the Gaussian fall-off from clipping. Use a
-      // generous 200% on each side; primitiveUnits inherits the default
-      // userSpaceOnUse-equivalent so stdDeviation is in CSS pixels.
-      ctx.defsParts.push(
-        `<filter id="${fid}" x="-50%" y="-50%" width="200%" height="200%"><feGaussianBlur stdDeviation="${r(stdDev)}"/></filter>`,
-      );
+      ctx.defsParts.push(shadowBlurFilter(fid, stdDev, sx, sy, sw, sh2));
       filterAttr = ` filter="url(#${fid})"`;
     }
-    ctx.svgParts.push(
-      `${indent}${roundedRectSvg(sx, sy, sw, sh2, shadowCorners, `fill="${colorStr(parseColor(sh.color) ?? { r: 0, g: 0, b: 0, a: 0 })}"${filterAttr}`)}`,
+    const shape = roundedRectSvg(sx, sy, sw, sh2, shadowCorners, `fill="${colorStr(parseColor(sh.color) ?? { r: 0, g: 0, b: 0, a: 0 })}"${filterAttr}`);
+    if (opaqueBox) {
+      ctx.svgParts.push(`${indent}${shape}`);
+      continue;
+    }
+    // CSS Backgrounds 3 §6.4: an outer shadow is drawn outside the border edge
+    // only, so a translucent box must not show it through.
+    const cid = ctx.nextClipId("shc");
+    const reach = sh.blur * 2 + 2;
+    const ox = Math.min(el.x, sx) - reach;
+    const oy = Math.min(el.y, sy) - reach;
+    const outer = roundedRectPath(ox, oy, Math.max(el.x + el.width, sx + sw) + reach - ox, Math.max(el.y + el.height, sy + sh2) + reach - oy, SHARP_CORNERS);
+    ctx.defsParts.push(
+      `<clipPath id="${cid}"><path d="${outer} ${roundedRectPath(el.x, el.y, el.width, el.height, corners)}" clip-rule="evenodd"/></clipPath>`,
     );
+    ctx.svgParts.push(`${indent}<g clip-path="url(#${cid})">${shape}</g>`);
   }
   return;
 }
@@ -2424,7 +2443,7 @@ function paintInlineSvg(el: CapturedElement, indent: string, allocClassPrefix?:
 // counterpart to paintBoxShadow. Per CSS Backgrounds 3 6.4 / Chromium
 // BoxPainterBase::PaintInsetBoxShadow: the shadow shape is the padding box
 // shifted by (x, y) and inset by spread, painted as an even-odd donut clipped to
-// the padding box (a stroked-rect glow for the pure-blur-centered case). Mints a
+// the padding box. Mints a
 // filter + clip id per shadow, so clipIdx is threaded in and the advanced value
 // returned. Returns { svg, defs, clipIdx }.
 function paintInsetBoxShadow(
@@ -2453,36 +2472,15 @@ function paintInsetBoxShadow(
   for (let si = shadows.length - 1; si >= 0; si--) {
     const sh = shadows[si];
     if (!sh.inset) continue;
-    if (sh.spread === 0 && sh.blur === 0) continue;
+    if (sh.x === 0 && sh.y === 0 && sh.spread <= 0 && sh.blur === 0) continue;
     if (ibW <= 0 || ibH <= 0) continue;
 
     const shadowColor = colorStr(parseColor(sh.color) ?? { r: 0, g: 0, b: 0, a: 0 });
-    let filterAttr = "";
-    if (sh.blur > 0) {
-      const stdDev = sh.blur / 2;
-      const fid = ctx.nextClipId("ish");
-      ctx.defsParts.push(
-        `<filter id="${fid}" x="-50%" y="-50%" width="200%" height="200%"><feGaussianBlur stdDeviation="${r(stdDev)}"/></filter>`,
-      );
-      filterAttr = ` filter="url(#${fid})"`;
-    }
     const cid = ctx.nextClipId("ishc");
     ctx.defsParts.push(
       `<clipPath id="${cid}">${roundedRectSvg(ibLeft, ibTop, ibW, ibH, innerCorners, "")}</clipPath>`,
     );
 
-    // Pure-blur-centered inset (x=0, y=0, spread=0, blur>0): the donut
-    // has zero area, so use the legacy stroked-rect approach which
-    // produces the right soft glow on all sides. Stroke width = blur/2;
-    // the Gaussian softens it into Chrome's inset-glow falloff. DM-366.
-    if (sh.x === 0 && sh.y === 0 && sh.spread === 0) {
-      const ringWidth = Math.max(sh.blur / 2, 1);
-      ctx.svgParts.push(
-        `${indent}<g clip-path="url(#${cid})">${roundedRectSvg(ibLeft, ibTop, ibW, ibH, innerCorners, `fill="none" stroke="${shadowColor}" stroke-width="${r(ringWidth)}"${filterAttr}`)}</g>`,
-      );
-      continue;
-    }
-
     // Donut path: outer subpath = padding box expanded by a margin
     // sized to contain the blur halo + spread; inner subpath = padding
     // box shifted by (sh.x, sh.y) and inset by sh.spread on each side.
@@ -2495,20 +2493,27 @@ function paintInsetBoxShadow(
     const innerH = ibH - 2 * sh.spread;
     if (innerW <= 0 || innerH <= 0) {
       // Shadow shape collapsed: per spec the entire padding box fills
-      // with shadow color (with blur halo) — emit a solid rect.
+      // with shadow color — emit a solid rect.
       ctx.svgParts.push(
-        `${indent}<g clip-path="url(#${cid})">${roundedRectSvg(ibLeft, ibTop, ibW, ibH, innerCorners, `fill="${shadowColor}"${filterAttr}`)}</g>`,
+        `${indent}<g clip-path="url(#${cid})">${roundedRectSvg(ibLeft, ibTop, ibW, ibH, innerCorners, `fill="${shadowColor}"`)}</g>`,
       );
       continue;
     }
-    const innerC = insetCornerRadii(innerCorners, sh.spread, sh.spread, sh.spread, sh.spread);
+    const innerC = sh.spread < 0
+      ? outsetCornerRadiiForShadow(innerCorners, -sh.spread)
+      : insetCornerRadii(innerCorners, sh.spread, sh.spread, sh.spread, sh.spread);
     const margin = Math.max(Math.abs(sh.x), Math.abs(sh.y), sh.spread, sh.blur, 1) * 4;
     const outerX = Math.min(ibLeft, innerL) - margin;
     const outerY = Math.min(ibTop, innerT) - margin;
     const outerR = Math.max(ibLeft + ibW, innerL + innerW) + margin;
     const outerB = Math.max(ibTop + ibH, innerT + innerH) + margin;
-    const sharp: CornerRadii = { tl: { h: 0, v: 0 }, tr: { h: 0, v: 0 }, br: { h: 0, v: 0 }, bl: { h: 0, v: 0 }, uniform: true };
-    const outerD = roundedRectPath(outerX, outerY, outerR - outerX, outerB - outerY, sharp);
+    let filterAttr = "";
+    if (sh.blur > 0) {
+      const fid = ctx.nextClipId("ish");
+      ctx.defsParts.push(shadowBlurFilter(fid, sh.blur / 2, ibLeft, ibTop, ibW, ibH));
+      filterAttr = ` filter="url(#${fid})"`;
+    }
+    const outerD = roundedRectPath(outerX, outerY, outerR - outerX, outerB - outerY, SHARP_CORNERS);
     const innerD = roundedRectPath(innerL, innerT, innerW, innerH, innerC);
     ctx.svgParts.push(
       `${indent}<g clip-path="url(#${cid})"><path d="${outerD} ${innerD}" fill="${shadowColor}" fill-rule="evenodd"${filterAttr}/></g>`,
-- 
2.43.0


From 15c155f607dfcb3db20d87971de4518d6de6c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:15 +0000
Subject: [PATCH 49/95] fix: captured inline SVG and labels always leave a
 well-formed document

Captured inline markup is HTML serialisation; restate it as XML before it is
pasted into the output, and drop XML-illegal characters from the labels that
had their own escaping.
---
 src/render/device-chrome.ts       |  3 +-
 src/render/element-tree-to-svg.ts | 16 +++----
 src/render/form-controls.ts       | 12 ++---
 src/render/format.ts              |  8 +++-
 src/render/svg-inline.ts          | 78 ++++++++++++++++++++++++++++++-
 5 files changed, 99 insertions(+), 18 deletions(-)

diff --git a/src/render/device-chrome.ts b/src/render/device-chrome.ts
index 66c9fdf..17a2b41 100644
--- a/src/render/device-chrome.ts
+++ b/src/render/device-chrome.ts
@@ -20,6 +20,7 @@
  * `site/scripts/build-install-demo.ts`; this is the shared renderer they (and
  * the `domotion capture --chrome` flag) crib from.
  */
+import { stripXmlIllegal } from "./format.js";
 
 /** Devices the `--chrome` flag understands. */
 export const DEVICE_CHROMES = ["phone", "browser", "window"] as const;
@@ -90,7 +91,7 @@ const MONO = "ui-monospace, 'SF Mono', Menlo, monospace";
 const SANS = "-apple-system, system-ui, 'Segoe UI', sans-serif";
 
 function escapeXml(s: string): string {
-  return s
+  return stripXmlIllegal(s)
     .replace(/&/g, "&amp;")
     .replace(/</g, "&lt;")
     .replace(/>/g, "&gt;")
diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 4ea13fe..fa35a10 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -16,7 +16,7 @@ import { profAccum, profNow } from "./render-profile.js";
 import type { DefCtx } from "./form-controls.js";
 import { renderFileSelectorOutsetShadow, renderFormControl } from "./form-controls.js";
 import { CAPTURE_SCRIPT } from "../capture/script.generated.js";
-import { r, esc, stopFmt, rootSvgA11y } from "./format.js";
+import { r, esc, stopFmt, stripXmlIllegal, rootSvgA11y } from "./format.js";
 import { clipPathShapeForElement, translateClipPath } from "./clip-path.js";
 import { buildImagePatternDef, capturedBackgroundNaturalSizing, cyclicBackgroundLayer, resolveBackgroundPatternFrame } from "./image-pattern.js";
 import { buildLinearGradientDef, buildRadialGradientDef, parseBgPositionPx, type GradientStop } from "./gradient-defs.js";
@@ -73,7 +73,7 @@ import {
   setActiveHiDPIFactor,
   type EmbedRemoteImagesOptions,
 } from "../capture/embed.js";
-import { inlineImgSvg, prefixSvgClasses, prefixSvgIds } from "./svg-inline.js";
+import { htmlSvgToXml, inlineImgSvg, prefixSvgClasses, prefixSvgIds } from "./svg-inline.js";
 import { hoistDuplicateImagePayloads } from "../post-processing/hoist-image-payloads.js";
 import { propagateTextDecorations } from "../tree-ops/decoration-propagation.js";
 import { getLastCaptureWarnings, logCaptureWarnings, _resetLastCaptureWarnings } from "../capture/warnings.js";
@@ -766,7 +766,7 @@ function paintSyntheticListMarker(
     const renderLabel = outside ? label : collapseMarkerWhitespace(label);
     const mx = contentEdge;
     const anchor = outside ? "end" : "start";
-    const escLabel = renderLabel.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+    const escLabel = stripXmlIllegal(renderLabel).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
     // DM-1258: outside markers preserve their suffix spaces (white-space: pre);
     // inside markers fold into the content line, so let SVG collapse there.
     const xmlSpace = outside ? ' xml:space="preserve"' : "";
@@ -2417,7 +2417,7 @@ function paintInlineSvg(el: CapturedElement, indent: string, allocClassPrefix?:
   // fall back to its 300x150 default viewport, and the defs contents would
   // paint visibly. Skip emission for 0x0 host elements.
   if (contentW <= 0 || contentH <= 0) return { svg, handled: true };
-  let sized = injectSvgSize(el.svgContent, contentW, contentH);
+  let sized = injectSvgSize(htmlSvgToXml(el.svgContent), contentW, contentH);
   const referencePrefix = el.svgReferenceScope != null ? `${idPrefix}svgscope${el.svgReferenceScope}-` : allocClassPrefix?.();
   if (referencePrefix != null) sized = prefixSvgIds(sized, referencePrefix);
   // DM-1595: namespace CSS class names when this inline SVG carries a `<style>`
@@ -2594,7 +2594,7 @@ function paintTruncationMarker(el: CapturedElement, textColor: ReturnType<typeof
     const ty = (el.textTop != null && el.fontAscent != null)
       ? el.textTop + el.fontAscent
       : el.y + fontSizePx * 1.1;
-    const escMarker = marker.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+    const escMarker = stripXmlIllegal(marker).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
     // Paint a background rect under the marker so the overflowing text
     // behind it gets visually erased — mirrors Chrome where the
     // truncated text doesn't bleed past the marker. Extend the rect all
@@ -3223,7 +3223,7 @@ function buildRenderState(
   for (const root of elements) {
     if (root.maskDefs == null) continue;
     for (const def of root.maskDefs) {
-      if (!fragmentMaskDefs.has(def.id)) fragmentMaskDefs.set(def.id, def);
+      if (!fragmentMaskDefs.has(def.id)) fragmentMaskDefs.set(def.id, { ...def, outerHTML: htmlSvgToXml(def.outerHTML) });
     }
   }
   // DM-494: top-level mask raster lookup table for `mask-image: element(#id)`.
@@ -3252,7 +3252,7 @@ function buildRenderState(
   for (const root of elements) {
     if (root.clipPathDefs == null) continue;
     for (const def of root.clipPathDefs) {
-      if (!fragmentClipPathDefs.has(def.id)) fragmentClipPathDefs.set(def.id, def);
+      if (!fragmentClipPathDefs.has(def.id)) fragmentClipPathDefs.set(def.id, { ...def, outerHTML: htmlSvgToXml(def.outerHTML) });
     }
   }
   // DM-934: collect inline <filter> defs from every root. Filters don't
@@ -3268,7 +3268,7 @@ function buildRenderState(
   for (const root of elements) {
     if (root.filterDefs == null) continue;
     for (const def of root.filterDefs) {
-      if (!fragmentFilterDefs.has(def.id)) fragmentFilterDefs.set(def.id, def);
+      if (!fragmentFilterDefs.has(def.id)) fragmentFilterDefs.set(def.id, { ...def, outerHTML: htmlSvgToXml(def.outerHTML) });
     }
   }
   // DM-1151: identify `border-collapse: collapse` cells that are laid out
diff --git a/src/render/form-controls.ts b/src/render/form-controls.ts
index c04e08a..7c84a14 100644
--- a/src/render/form-controls.ts
+++ b/src/render/form-controls.ts
@@ -14,7 +14,7 @@
 import type { CapturedElement } from "../capture/types.js";
 import { buildLinearGradientDef, buildRadialGradientDef, gradientCacheKey, parseGradient } from "./gradients.js";
 import { parseBoxShadow } from "./box-shadow.js";
-import { esc, r } from "./format.js";
+import { esc, r, stripXmlIllegal } from "./format.js";
 import { renderMultiSegmentText } from "./text.js";
 import { renderTextAsPath } from "./text-to-path.js";
 import { hasVerticalSegments, renderVerticalSegments } from "./vertical-text.js";
@@ -1197,7 +1197,7 @@ function renderDatePicker(el: CapturedElement, indent: string): string {
   // the canonical ISO form (`2026-04-21`). DM-263.
   const display = formatDateInputDisplay(t, val);
   if (display !== "") {
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="ui-monospace, Menlo, monospace" fill="${textFill}">${display.replace(/[&<>]/g, (c) => ({"&":"&amp;","<":"&lt;",">":"&gt;"}[c]!))}</text>`);
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="ui-monospace, Menlo, monospace" fill="${textFill}">${stripXmlIllegal(display).replace(/[&<>]/g, (c) => ({"&":"&amp;","<":"&lt;",">":"&gt;"}[c]!))}</text>`);
   }
   // Picker icon on the right edge: calendar for date / month / week / datetime-local,
   // clock for time. Chrome paints these monochrome at ~14px in the input's
@@ -1505,8 +1505,8 @@ function renderListbox(el: CapturedElement, indent: string): string {
     const fontStyleAttr = fontStyle !== "normal" ? ` font-style="${fontStyle}"` : "";
     const fontWeightAttr = fontWeight !== "normal" && fontWeight !== "400" ? ` font-weight="${fontWeight}"` : "";
     const opacityAttr = o.disabled ? ` opacity="0.5"` : "";
-    const escaped = o.text.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(optionFontSize)}" font-family="${(o.fontFamily ?? fontFamily).replace(/"/g, "&quot;")}" fill="${o.color ?? color}"${fontStyleAttr}${fontWeightAttr}${opacityAttr}>${escaped}</text>`);
+    const escaped = stripXmlIllegal(o.text).replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(optionFontSize)}" font-family="${esc(o.fontFamily ?? fontFamily)}" fill="${o.color ?? color}"${fontStyleAttr}${fontWeightAttr}${opacityAttr}>${escaped}</text>`);
   }
   return parts.join("\n");
 }
@@ -1534,8 +1534,8 @@ function renderSelectChevron(el: CapturedElement, indent: string, defCtx?: DefCt
     const bwL = parseFloat(el.styles.borderLeftWidth ?? "0") || 0;
     const tx = el.x + bwL + padL;
     const ty = el.y + el.height / 2 + fontSize * 0.35;
-    const escaped = display.replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
-    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="${fontFamily.replace(/"/g, "&quot;")}" fill="${color}">${escaped}</text>`);
+    const escaped = stripXmlIllegal(display).replace(/[&<>]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;" }[c]!));
+    parts.push(`${indent}<text x="${r(tx)}" y="${r(ty)}" font-size="${r(fontSize)}" font-family="${esc(fontFamily)}" fill="${color}">${escaped}</text>`);
   }
   // Chromium macOS default: small down-chevron near the right edge. Skip
   // when the page set appearance: none — the chevron is the page's
diff --git a/src/render/format.ts b/src/render/format.ts
index 53ff321..b2acad7 100644
--- a/src/render/format.ts
+++ b/src/render/format.ts
@@ -41,9 +41,13 @@ export function r(n: number): string {
  */
 const XML_ILLEGAL = /[\x00-\x08\x0B\x0C\x0E-\x1F\uFFFE\uFFFF]|[\uD800-\uDBFF](?![\uDC00-\uDFFF])|(?<![\uD800-\uDBFF])[\uDC00-\uDFFF]/g;
 
+/** Drop the characters an XML 1.0 document cannot carry. */
+export function stripXmlIllegal(s: string): string {
+  return s.replace(XML_ILLEGAL, "");
+}
+
 export function esc(s: string): string {
-  return s
-    .replace(XML_ILLEGAL, "")
+  return stripXmlIllegal(s)
     .replace(/&/g, "&amp;")
     .replace(/</g, "&lt;")
     .replace(/>/g, "&gt;")
diff --git a/src/render/svg-inline.ts b/src/render/svg-inline.ts
index 7add301..e11fc76 100644
--- a/src/render/svg-inline.ts
+++ b/src/render/svg-inline.ts
@@ -21,7 +21,7 @@
  * exactly one place.
  */
 
-import { r } from "./format.js";
+import { r, stripXmlIllegal } from "./format.js";
 
 /**
  * Prefix every `id="…"`, `href="#…"`, `xlink:href="#…"`, and `url(#…)` in an
@@ -96,6 +96,82 @@ export function prefixSvgClasses(svg: string, prefix: string): string {
   return out;
 }
 
+const HTML_VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"]);
+const XML_NAME = /^[\p{L}_][\p{L}\p{N}_.-]*(?::[\p{L}_][\p{L}\p{N}_.-]*)?$/u;
+
+/** Character data (or an attribute value's inside) as XML: named references
+ *  beyond XML's five become numeric, bare `&` and `<` are escaped. */
+function htmlCharsToXml(s: string): string {
+  return stripXmlIllegal(s)
+    .replace(/&nbsp;/g, "&#160;")
+    .replace(/&(?!(?:amp|lt|gt|quot|apos|#\d+|#x[\da-fA-F]+);)/g, "&amp;")
+    .replace(/</g, "&lt;");
+}
+
+/**
+ * Captured inline markup (`outerHTML`) is the browser's HTML serialization, but
+ * it lands inside an XML document. The two agree for ordinary SVG; they part
+ * ways on `&nbsp;`, on characters XML forbids, on attribute names and namespace
+ * prefixes HTML tolerates, on comments, and on the HTML inside a
+ * `<foreignObject>` (unclosed void elements, raw-text `<style>`, no namespace
+ * declaration). Any one of them makes the whole output unparseable, so restate
+ * the markup as XML. Markup that already is comes back unchanged.
+ */
+export function htmlSvgToXml(markup: string): string {
+  const token = /<!--([\s\S]*?)-->|<!\[CDATA\[[\s\S]*?\]\]>|<\?[\s\S]*?>|<![^>]*>|<\/([^\s>]+)\s*>|<([a-zA-Z][^\s/>]*)((?:"[^"]*"|'[^']*'|[^"'>])*?)(\/?)>/g;
+  // Per open element: its name, whether it is HTML, and the prefixes in scope.
+  const open: { name: string; html: boolean; prefixes: Set<string> }[] = [];
+  let out = "";
+  let at = 0;
+  for (let m = token.exec(markup); m != null; m = token.exec(markup)) {
+    out += htmlCharsToXml(markup.slice(at, m.index)).replace(/\]\]>/g, "]]&gt;");
+    at = token.lastIndex;
+    const [whole, comment, closing, name, attrs, selfClose] = m;
+    if (comment != null) {
+      if (!/--|-$/.test(comment)) out += stripXmlIllegal(whole);
+    } else if (closing != null) {
+      if (open.length > 0 && open[open.length - 1].name === closing) { open.pop(); out += whole; }
+    } else if (name == null) {
+      if (whole.startsWith("<![CDATA[")) out += stripXmlIllegal(whole);
+    } else {
+      const parent = open[open.length - 1];
+      const integration = parent != null && !parent.html && /^(?:foreignObject|desc|title)$/i.test(parent.name);
+      const html = (integration || parent?.html === true) && !/^(?:svg|math)$/i.test(name);
+      const prefixes = new Set(parent?.prefixes ?? ["xml", "xlink", "xmlns"]);
+      for (const d of attrs.matchAll(/\sxmlns:([^\s=]+)\s*=/g)) prefixes.add(d[1]);
+      let kept = attrs.replace(/\s+([^\s=]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"']+))?/g, (attr: string, key: string, value: string | undefined) => {
+        const colon = key.indexOf(":");
+        if (!XML_NAME.test(key) || (colon > 0 && !prefixes.has(key.slice(0, colon)))) return "";
+        if (value == null) return `${attr}=""`;
+        const quoted = /^["']/.test(value);
+        const safe = htmlCharsToXml(value);
+        if (quoted && safe === value) return attr;
+        return `${attr.slice(0, attr.length - value.length)}${quoted ? safe : `"${safe}"`}`;
+      });
+      const declare = (ns: string) => { if (!/\sxmlns\s*=/.test(kept)) kept += ` xmlns="${ns}"`; };
+      if (html && parent?.html !== true) declare("http://www.w3.org/1999/xhtml");
+      else if (!html && parent != null && (parent.html || integration)) {
+        declare(/^math$/i.test(name) ? "http://www.w3.org/1998/Math/MathML" : "http://www.w3.org/2000/svg");
+      }
+      const prefix = name.includes(":") ? name.slice(0, name.indexOf(":")) : "";
+      if (prefix !== "" && !prefixes.has(prefix)) { kept += ` xmlns:${prefix}="urn:${prefix}"`; prefixes.add(prefix); }
+      const isVoid = html && HTML_VOID.has(name.toLowerCase());
+      out += `<${name}${kept}${selfClose !== "" || isVoid ? "/" : ""}>`;
+      if (selfClose !== "" || isVoid) continue;
+      open.push({ name, html, prefixes });
+      if (html && /^(?:style|script|xmp|iframe|noembed|noframes|plaintext)$/i.test(name)) {
+        // Raw text: HTML serializes it without escaping.
+        const end = markup.indexOf(`</${name}`, at);
+        const stop = end < 0 ? markup.length : end;
+        out += stripXmlIllegal(markup.slice(at, stop)).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
+        at = token.lastIndex = stop;
+      }
+    }
+  }
+  out += htmlCharsToXml(markup.slice(at)).replace(/\]\]>/g, "]]&gt;");
+  return out;
+}
+
 /** Read a numeric SVG length attribute (`width`/`height`), stripping a `px`
  *  unit suffix. Returns null for `%`, `em`, `auto`, missing, or non-finite. */
 function readLengthAttr(attrs: string, name: string): number | null {
-- 
2.43.0


From 9371e7115e53829f9edb07e8a690dd6fd79edbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:15 +0000
Subject: [PATCH 50/95] fix: a shadowed or stroked text run's decoration clips
 get ids of their own

---
 src/render/element-tree-to-svg.ts | 8 ++++----
 src/render/text.ts                | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index fa35a10..00d5177 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -952,7 +952,7 @@ function buildPseudoBoxBgLayers(
 // (font resolution + shaping + outline/embedded-font build + markup).
 function renderOneText(
   ctx: PaintCtx,
-  opts: { el: CapturedElement; idPrefix: string; clipId: string; fillColor: string; overflowClip?: boolean; affineMatrix?: import("../capture/types.js").CapturedTextPaintAffine },
+  opts: { el: CapturedElement; idPrefix: string; clipId: string; fillColor: string; decorationId?: string; overflowClip?: boolean; affineMatrix?: import("../capture/types.js").CapturedTextPaintAffine },
   emit: (pb: { x: number; y: number; width: number; height: number; backgroundImage: string; borderRadius?: number }) => string,
 ): string {
   const _tText = profNow();
@@ -1165,7 +1165,7 @@ function paintText(
           rasterGlyphs: undefined,
         })),
       };
-      let body = renderOneText(ctx, { el: shifted, idPrefix: ctx.idPrefix, clipId: cid, fillColor: shadowFillColor, affineMatrix }, emit);
+      let body = renderOneText(ctx, { el: shifted, idPrefix: ctx.idPrefix, clipId: cid, decorationId: `${cid}-sh${si}`, fillColor: shadowFillColor, affineMatrix }, emit);
       if (sh.blur > 0) {
         const stdDev = sh.blur / 2;
         const fid = ctx.nextClipId("tsh");
@@ -1209,7 +1209,7 @@ function paintText(
             // a recolored gradient-pill rect underneath the shadow.
             pseudoBox: undefined,
           };
-          let segBody = wrapAffineTextPaint(affineMatrix, renderMultiSegmentText({ el, idPrefix: ctx.idPrefix, clipId: cid, fillColor: segShadowFill, emitPseudoBoxBgLayers: emit }, [shiftedSeg]));
+          let segBody = wrapAffineTextPaint(affineMatrix, renderMultiSegmentText({ el, idPrefix: ctx.idPrefix, clipId: cid, decorationId: `${cid}-sh${segIdx}_${si}`, fillColor: segShadowFill, emitPseudoBoxBgLayers: emit }, [shiftedSeg]));
           if (sh.blur > 0) {
             const stdDev = sh.blur / 2;
             const fid = ctx.nextClipId("tssh");
@@ -1271,7 +1271,7 @@ function paintText(
       const bgClipStrokeW = parseFloat(el.styles.webkitTextStrokeWidth ?? "0") || 0;
       let bgClipStrokeBody = "";
       if (bgClipStrokeW > 0) {
-        bgClipStrokeBody = renderOneText(ctx, { el, idPrefix: ctx.idPrefix, clipId: cid, fillColor: "rgba(0,0,0,0)", overflowClip: textOverflowClip, affineMatrix }, emit);
+        bgClipStrokeBody = renderOneText(ctx, { el, idPrefix: ctx.idPrefix, clipId: cid, decorationId: `${cid}-st`, fillColor: "rgba(0,0,0,0)", overflowClip: textOverflowClip, affineMatrix }, emit);
       }
       // Emit one masked rect per text-clipped layer, walking from BOTTOM
       // (highest li) to TOP (li = 0) so the topmost CSS layer paints last.
diff --git a/src/render/text.ts b/src/render/text.ts
index 9c8ddc8..cd18a68 100644
--- a/src/render/text.ts
+++ b/src/render/text.ts
@@ -1029,6 +1029,10 @@ interface RenderTextOpts {
   idPrefix: string;
   clipId: string;
   fillColor: string;
+  /** Base of the decoration clip ids. A second rendering of the same text (a
+   *  shadow, a stroke pass) passes its own, so the two do not share an id.
+   *  Defaults to `clipId`. */
+  decorationId?: string;
   /** True when the element has overflow != visible (hidden / clip / scroll /
    *  auto on either axis) and text must be clipped to the content rect. When
    *  false, path-mode text renders without a clip-path so default
@@ -1584,7 +1588,7 @@ export function renderSingleLineText(opts: RenderTextOpts): string {
       segWidth: el.textWidth ?? 0,
       fontSize: segFontSize, fontFamily: segFontFamily, fontWeight: segFontWeight,
       runText: pathText, features, runXOffsets: xOffsetsRel ?? undefined,
-      idBase: `${clipId}-dec`,
+      idBase: `${opts.decorationId ?? clipId}-dec`,
     });
     // Per-char raster overlays (SK-1090). Emoji / color-bitmap codepoints in
     // the middle of plain-text runs get stamped on top of the path output.
@@ -1783,7 +1787,7 @@ export function renderMultiSegmentText(opts: RenderTextOpts, segments: TextSegme
       segWidth: seg.width,
       fontSize: segFontSize, fontFamily: segFontFamily, fontWeight: segFontWeight,
       runText: reordered.text, features: segFeatures, runXOffsets: segXOffsets ?? undefined,
-      idBase: `${clipId}-dec${_decoSegIdx++}`,
+      idBase: `${opts.decorationId ?? clipId}-dec${_decoSegIdx++}`,
     });
     if (decoMarkup !== "") segParts.push(decoMarkup);
     // Per-char raster overlays (SK-1090). Emoji inline with path-rendered
-- 
2.43.0


From a188212e86b07fa22a0be7ba17b88fa86e6e41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 51/95] fix: copies of a captured mask, clip path or filter do
 not share ids

---
 src/render/element-tree-to-svg.ts | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 00d5177..c5d4496 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -291,6 +291,7 @@ interface RenderState {
   fragmentMaskOutputId: Map<string, string>;
   fragmentMaskCounter: number;
   fragmentClipPathDefs: Map<string, ClipPathFragmentDef>;
+  fragmentFilterDefs: Map<string, { id: string; outerHTML: string }>;
   fragmentClipPathOutputId: Map<string, string>;
   fragmentClipPathCounter: number;
   /**
@@ -3260,7 +3261,8 @@ function buildRenderState(
   // objectBoundingBox` makes the filter region relative to each consuming
   // element's bbox, and `primitiveUnits=userSpaceOnUse` only affects
   // primitive-internal coordinates (e.g. feTurbulence baseFrequency). The
-  // captured outerHTML can be emitted verbatim with the ORIGINAL id (the
+  // captured outerHTML can be emitted with the ORIGINAL id behind the frame's
+  // id prefix, which the reference below gets too (the
   // CSS `filter: url(#id)` value is passed through as an inline style on
   // the wrapping <g>, so it expects the id to match the captured page).
   // We collect once and emit eagerly into defsParts below.
@@ -3341,6 +3343,7 @@ function buildRenderState(
     fragmentMaskOutputId,
     fragmentMaskCounter: 0,
     fragmentClipPathDefs,
+    fragmentFilterDefs,
     fragmentClipPathOutputId,
     fragmentClipPathCounter: 0,
     elementClipPathIds: new Map(),
@@ -3394,7 +3397,7 @@ function elementTreeToSvgInnerImpl(
   // and the rest of the SVG filter primitive set all round-trip cleanly
   // since the browser's SVG renderer interprets them directly.
   for (const def of fragmentFilterDefs.values()) {
-    defsParts.push(def.outerHTML);
+    defsParts.push(idPrefix === "" ? def.outerHTML : rewriteFragmentMaskDef(def.outerHTML, `${idPrefix}${def.id}`, idPrefix));
   }
 
   // Sort top-level siblings by CSS paint order too. captureElementTree
@@ -3510,6 +3513,13 @@ export function elementTreeToSvgInner(
 // scope. They were nested closures capturing ~18 shared locals; they now take
 // an explicit `state: RenderState` (built once per render) and destructure the
 // fields they need. Function declarations, so call order is hoist-independent.
+/** Id prefix for the descendants of one copy of a captured fragment: each
+ *  position gets its own copy, and only the first may use the plain prefix. */
+function fragmentCopyPrefix(outputIds: Map<string, string>, fragId: string, idPrefix: string): string {
+  let copies = 0;
+  for (const key of outputIds.keys()) if (key.startsWith(`${fragId}|`)) copies++;
+  return copies <= 1 ? idPrefix : `${idPrefix}copy${copies}-`;
+}
 function resolveFragmentClipPathRef(
   state: RenderState,
   clipPathCss: string,
@@ -3551,7 +3561,7 @@ function resolveFragmentClipPathRef(
   if (cached != null) return cached;
   const outId = `${idPrefix}cpfrag${state.fragmentClipPathCounter++}`;
   fragmentClipPathOutputId.set(cacheKey, outId);
-  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, idPrefix);
+  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, fragmentCopyPrefix(fragmentClipPathOutputId, fragId, idPrefix));
   defsParts.push(positionFragmentClipPathDef(rewritten, elX, elY));
   return outId;
 }
@@ -3579,7 +3589,7 @@ function resolveFragmentMaskRef(
   // and re-emitting as a fresh <mask maskUnits="userSpaceOnUse">. The
   // captured mask's own x/y/width/height become the <mask> element's
   // bounds, shifted by (elX, elY).
-  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, idPrefix);
+  const rewritten = rewriteFragmentMaskDef(def.outerHTML, outId, fragmentCopyPrefix(fragmentMaskOutputId, fragId, idPrefix));
   const positioned = positionFragmentMaskDef(rewritten, elX, elY, elW, elH);
   defsParts.push(positioned);
   return outId;
@@ -5229,7 +5239,9 @@ function renderElement(state: RenderState, el: CapturedElement, depth: number, p
   // don't need to translate filter functions into <filter> elements.
   // backdrop-filter has no equivalent in img-rendered SVG; it's captured but
   // not emitted (documented limitation).
-  const filterCss = el.styles.filter && el.styles.filter !== "none" ? el.styles.filter : "";
+  const filterCss = el.styles.filter && el.styles.filter !== "none"
+    ? el.styles.filter.replace(/(\burl\(\s*["']?#)([^"')]+)/gi, (ref, open: string, id: string) => state.fragmentFilterDefs.has(id) ? `${open}${state.idPrefix}${id}` : ref)
+    : "";
   const blendCss = el.styles.mixBlendMode && el.styles.mixBlendMode !== "normal" ? el.styles.mixBlendMode : "";
   const clipPathUrlId = resolveClipPathOnce(state, el, corners);
   const maskUrlId = renderMaskPhaseOnce(state, el);
-- 
2.43.0


From 9e9aed3d6f1837b3c243d543d416caabcb9ca9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 52/95] fix: an svg overlay's visibility and its enter/exit
 slides each keep their own element, hard edges and in-range stops

---
 src/animation/animator.ts | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 32798e0..1304af5 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2880,10 +2880,12 @@ function renderSvgOverlay(
   const cssRules: string[] = [];
   // Visibility timeline: hidden until the appear time, visible during the
   // half-open hold [appear, end). Keeping the end stop hidden avoids a one-tick
-  // overlap with the next frame/overlay at an exact shared boundary.
+  // overlap with the next frame/overlay at an exact shared boundary; `step-end`
+  // makes both edges hard at any scene length (a stop 1 ms aside prints at the
+  // same 0.01 % once the scene is longer than 10 s, and would turn into a fade).
   cssRules.push(`
-    @keyframes ${visibilityId} { 0%, ${pct(Math.max(0, appearMs - 1), totalDuration)} { opacity: 0; } ${visStart} { opacity: 1; } ${pct(Math.max(appearMs, overlayEnd - 1), totalDuration)} { opacity: 1; } ${visEnd}, 100% { opacity: 0; } }
-    .${id} { animation: ${visibilityId} ${totalSec.toFixed(2)}s infinite; }`);
+    @keyframes ${visibilityId} { 0% { opacity: 0; } ${visStart} { opacity: 1; } ${visEnd}, 100% { opacity: 0; } }
+    .${id} { animation: ${visibilityId} ${totalSec.toFixed(2)}s step-end infinite; }`);
 
   // Slide-in entrance (DM-211): translate from off-screen to (0, 0) over
   // duration ms, starting at frame start + delay.
@@ -2894,8 +2896,8 @@ function renderSvgOverlay(
     const fromStr = offsetForDirection(e.from, overlay.width, overlay.height);
     // DM-1767: measured from the overlay's appear time, so `enter.delay` stays
     // an additional nudge (identical when `delay` is unset — the default).
-    const enterStart = appearMs + enterDelay;
-    const enterEnd = enterStart + e.duration;
+    const enterStart = Math.min(appearMs + enterDelay, totalDuration);
+    const enterEnd = Math.min(enterStart + e.duration, totalDuration);
     const enterId = `${id}-enter`;
     cssRules.push(`
     @keyframes ${enterId} { 0% { transform: ${fromStr}; } ${pct(enterStart, totalDuration)} { transform: ${fromStr}; } ${pct(enterEnd, totalDuration)} { transform: translate(0, 0); } 100% { transform: translate(0, 0); } }
@@ -2908,21 +2910,23 @@ function renderSvgOverlay(
     const easing = e.easing ?? "ease-in";
     const exitDelay = e.delay ?? 0;
     const toStr = offsetForDirection(e.from, overlay.width, overlay.height);
-    const exitStart = overlayEnd - e.duration - exitDelay;
+    const exitStart = Math.max(0, overlayEnd - e.duration - exitDelay);
     const exitId = `${id}-exit`;
     cssRules.push(`
-    @keyframes ${exitId} { 0%, ${pct(exitStart, totalDuration)} { transform: translate(0, 0); } ${pct(exitStart + e.duration, totalDuration)} { transform: ${toStr}; } 100% { transform: ${toStr}; } }
+    @keyframes ${exitId} { 0%, ${pct(exitStart, totalDuration)} { transform: translate(0, 0); } ${pct(Math.min(exitStart + e.duration, totalDuration), totalDuration)} { transform: ${toStr}; } 100% { transform: ${toStr}; } }
     .${id}-exit { animation: ${exitId} ${totalSec.toFixed(2)}s ${easing} infinite; }`);
   }
 
   // Markup: outer wrapper translates to (x, y) and clips, inner wrapper
-  // carries the visibility class, then the enter/exit transform wrapper, then
-  // the inlined SVG content.
-  const enterClass = overlay.enter != null ? ` ${id}-enter` : "";
-  const exitClass = overlay.exit != null ? ` ${id}-exit` : "";
+  // carries the visibility class, then one wrapper per enter/exit transform
+  // (each class declares its own `animation`, so sharing an element would let
+  // the last rule drop the others), then the inlined SVG content.
+  const slides = [overlay.enter != null ? "enter" : null, overlay.exit != null ? "exit" : null].filter((k) => k != null);
+  const open = slides.map((k) => `<g class="${id}-${k}">`).join("");
+  const close = "</g>".repeat(slides.length);
   const svgMarkup = `  <g transform="translate(${overlay.x} ${overlay.y})" clip-path="url(#${clipId})">
     <defs><clipPath id="${clipId}"><rect width="${overlay.width}" height="${overlay.height}"/></clipPath></defs>
-    <g class="${id}${enterClass}${exitClass}">${overlay.innerSvg}</g>
+    <g class="${id}">${open}${overlay.innerSvg}${close}</g>
   </g>`;
 
   return { svgMarkup, css: cssRules.join("") };
-- 
2.43.0


From 9d479e8333fbbb55c57c17a139eb4c5a94eb76a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 53/95] fix: repeating shine and interact overlays stay inside
 their window

---
 src/animation/animator.ts | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 1304af5..8f2e657 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2555,7 +2555,28 @@ function renderShineOverlay(
     repeat: overlay.repeat,
     repeatPeriodMs: overlay.repeatPeriodMs,
   });
-  return { svgMarkup: sweep.markup, css: sweep.css };
+  const rendered = { svgMarkup: sweep.markup, css: sweep.css };
+  return overlay.repeat == null
+    ? rendered
+    : gateToWindow(`sh${idBase}`, rendered, sweepStartMs, frameStart + frameHoldMs, totalDuration, totalSec);
+}
+
+/**
+ * A repeating overlay (`repeat` on shine / interact) cycles on its own clock,
+ * which starts once and keeps going: gate it to its window `[startMs, endMs)` on
+ * the SCENE clock, so it neither outlives its frame nor shows over earlier
+ * frames when the loop comes round again.
+ */
+function gateToWindow(
+  id: string, rendered: { svgMarkup: string; css: string }, startMs: number, endMs: number, totalDuration: number, totalSec: number,
+): { svgMarkup: string; css: string } {
+  const name = `${id}-win`;
+  return {
+    svgMarkup: `  <g class="${name}">\n${rendered.svgMarkup}\n  </g>`,
+    css: `${rendered.css}
+    @keyframes ${name} { 0% { opacity: 0; } ${pct(startMs, totalDuration)} { opacity: 1; } ${pct(endMs, totalDuration)}, 100% { opacity: 0; } }
+    .${name} { animation: ${name} ${totalSec.toFixed(2)}s step-end infinite; }`,
+  };
 }
 
 function renderBlinkOverlay(
@@ -2683,7 +2704,7 @@ function renderInteractOverlay(
       100% { opacity: 0; transform: scale(1); }
     }
     .${id} { animation: ${id} ${period}ms linear ${appearMs.toFixed(0)}ms ${iterations} both; transform-origin: ${cx}px ${cy}px; }`;
-    return { svgMarkup, css };
+    return gateToWindow(id, { svgMarkup, css }, appearMs, frameEnd, totalDuration, totalSec);
   }
   css = `
     @keyframes ${id} {
-- 
2.43.0


From 737f0b907b2db172f6d52be255ac297c5de8a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 54/95] fix: an instant interact pop or release does not
 stretch into a ramp

---
 src/animation/animator.ts | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 8f2e657..42d780d 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2691,9 +2691,10 @@ function renderInteractOverlay(
     const period = overlay.repeatPeriodMs ?? 1600;
     const iterations = overlay.repeat === "infinite" ? "infinite" : String(overlay.repeat);
     const holdInPulse = overlay.holdMs ?? 140; // a brief peak hold, not the one-shot's frame-long hold
-    const riseEnd = Math.min(1, duration / period);
-    const holdEnd = Math.min(1, (duration + holdInPulse) / period);
     const releaseEnd = Math.min(1, (duration + holdInPulse + releaseMs) / period);
+    // Short of the release's own stop, which would otherwise swallow the hold (`releaseMs: 0`).
+    const holdEnd = Math.max(0, Math.min((duration + holdInPulse) / period, releaseEnd - 0.0001));
+    const riseEnd = Math.min(duration / period, holdEnd);
     const p = (frac: number): string => `${(frac * 100).toFixed(2)}%`;
     css = `
     @keyframes ${id} {
@@ -2706,13 +2707,21 @@ function renderInteractOverlay(
     .${id} { animation: ${id} ${period}ms linear ${appearMs.toFixed(0)}ms ${iterations} both; transform-origin: ${cx}px ${cy}px; }`;
     return gateToWindow(id, { svgMarkup, css }, appearMs, frameEnd, totalDuration, totalSec);
   }
+  // An instant pop (`duration: 0`) or release puts two stops at one offset, where
+  // the later would swallow the earlier and stretch the ramp back to the stop
+  // before it: keep the resting stop of each ramp a hair before its peak.
+  const at = (p: number): string => `${Math.max(0, p).toFixed(2)}%`;
+  const [a, k, h, r] = [appearMs, peakMs, holdEndMs, releaseEndMs].map((ms) => parseFloat(s(ms)));
+  const holdPct = Math.min(h, r - 0.01);
+  const peakPct = Math.min(k, holdPct);
+  const appearPct = Math.min(a, peakPct - 0.01);
   css = `
     @keyframes ${id} {
       0% { opacity: 0; transform: scale(1); }
-      ${s(appearMs)} { opacity: 0; transform: scale(1); animation-timing-function: ease-out; }
-      ${s(peakMs)} { opacity: 1; transform: scale(${scaleTo}); }
-      ${s(holdEndMs)} { opacity: 1; transform: scale(${scaleTo}); animation-timing-function: ease-in; }
-      ${s(releaseEndMs)} { opacity: 0; transform: scale(1); }
+      ${at(appearPct)} { opacity: 0; transform: scale(1); animation-timing-function: ease-out; }
+      ${at(peakPct)} { opacity: 1; transform: scale(${scaleTo}); }
+      ${at(holdPct)} { opacity: 1; transform: scale(${scaleTo}); animation-timing-function: ease-in; }
+      ${at(r)} { opacity: 0; transform: scale(1); }
       100% { opacity: 0; transform: scale(1); }
     }
     .${id} { animation: ${id} ${totalSec.toFixed(2)}s linear infinite; transform-origin: ${cx}px ${cy}px; }`;
-- 
2.43.0


From f703aa22a5cfac8fe06c0f78dcf59b96fc636da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 55/95] fix: overlays whose window closes before they start
 leave nothing behind

---
 src/animation/animator.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 42d780d..62a446f 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2396,6 +2396,8 @@ function renderTypingOverlay(
   // DM-1555: grow the natural window by each typo's cost (wrong glyph +
   // backspace + think pause) so mistakes don't over-compress the rest.
   const naturalEndMs = typeStartMs + visibleChars * speed + mistakeOverheadMs(mistakes, speed, thinkMs);
+  // A window that closes before the first keystroke leaves nothing to show.
+  if (typeStartMs >= frameEnd) return { svgMarkup: "", css: "" };
   const textEndMs = Math.min(naturalEndMs, Math.max(typeStartMs + 1, frameEnd - disappearGap));
   const effTypeDur = Math.max(1, textEndMs - typeStartMs);
   const holdEndMs = Math.max(textEndMs, frameEnd - disappearGap);
@@ -2539,6 +2541,8 @@ function renderShineOverlay(
   const delay = overlay.delay ?? DEFAULT_EFFECT_DELAY_MS;
   const duration = overlay.duration ?? 900;
   const sweepStartMs = frameStart + delay;
+  // A window that closes before the first sweep leaves nothing to show.
+  if (delay >= frameHoldMs) return { svgMarkup: "", css: "" };
   const sweep = buildShineSweep({
     id: `sh${idBase}`,
     x: overlay.x, y: overlay.y, width: overlay.width, height: overlay.height,
@@ -2591,6 +2595,8 @@ function renderBlinkOverlay(
   const period = overlay.periodMs ?? DEFAULT_BLINK_PERIOD_MS;
   const color = overlay.color ?? "#e6edf3";
   const startMs = frameStart + (overlay.delay ?? 0);
+  // A window that closes before the first blink leaves nothing to show.
+  if (startMs >= frameEnd) return { svgMarkup: "", css: "" };
   const radiusAttr = overlay.radius != null ? ` rx="${overlay.radius}" ry="${overlay.radius}"` : "";
 
   // Toggle opacity on/off every half-period across the frame's hold, then off.
@@ -2655,6 +2661,8 @@ function renderInteractOverlay(
   const releaseMs = overlay.releaseMs ?? 180;
 
   // Timeline (all clamped to the frame so the treatment can't leak past the cut).
+  // A window that closes before the treatment appears leaves nothing to show.
+  if (frameStart + delay >= frameEnd) return { svgMarkup: "", css: "" };
   const appearMs = Math.min(frameStart + delay, frameEnd);
   const peakMs = Math.min(appearMs + duration, frameEnd);
   // `press` is a quick tap by default; hover/focus hold until just before the
-- 
2.43.0


From 98cdd8b17a4742ce7cf2d55afe7c13f0301f869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:40 +0000
Subject: [PATCH 56/95] fix: a shine band crosses its box wherever the box is

---
 src/animation/shine.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/animation/shine.ts b/src/animation/shine.ts
index 6a40297..f6a1700 100644
--- a/src/animation/shine.ts
+++ b/src/animation/shine.ts
@@ -96,9 +96,12 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
   // Travel: the band's local x runs from `-band` (fully left of the box) to
   // `width + band` (fully right of it). Skewing the band would let its top/bottom
   // corners poke outside the sweep, so the band rect is over-tall (from -height to
-  // +2·height) and the skew pivots about the box center; the clip trims the rest.
-  const startX = -band;
-  const endX = width + band;
+  // +2·height), the skew pivots about the box center, and the travel is widened by
+  // what the skew pokes out within the box; the clip trims the rest.
+  const overhang = Math.abs(Math.tan((skew * Math.PI) / 180)) * (height / 2);
+  const startX = -(band + overhang);
+  const endX = width + Math.max(band, overhang);
+  const centerY = y + height / 2;
   const bandH = height * 3;
 
   // Rounded clip so the glint follows a pill/button's corners rather than
@@ -144,7 +147,7 @@ export function buildShineSweep(opts: ShineSweepOptions): ShineSweepResult {
     </linearGradient>
   </defs>
   <g clip-path="url(#${clipId})">
-    <g class="${cls}"><rect x="0" y="${y - height}" width="${band}" height="${bandH}" fill="url(#${gradId})" transform="translate(${x} 0) skewX(${-skew})" /></g>
+    <g class="${cls}"><rect x="0" y="${y - height}" width="${band}" height="${bandH}" fill="url(#${gradId})" transform="translate(${x} ${centerY}) skewX(${-skew}) translate(0 ${-centerY})" /></g>
   </g>`;
 
   return { markup, css };
-- 
2.43.0


From 367eba0edf1bb90a7b348bcde8cb3f6e5c737861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:41 +0000
Subject: [PATCH 57/95] fix: typed astral characters keep their glyphs on the
 caret plan

---
 src/animation/animator.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 62a446f..238af28 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2137,7 +2137,8 @@ function buildTypingLines(
     // DM-1557: paint the line as glyph paths (advances match on every viewer),
     // pinning each glyph at its measured left edge so the reveal clip + caret
     // stay locked. Source-outline failures remain labeled non-painting groups.
-    const xOffsets = cum[li].slice(0, line.length);
+    // The renderer indexes offsets by UTF-16 unit: an astral character takes two.
+    const xOffsets = line.flatMap((ch, k) => new Array<number>(ch.length).fill(cum[li][k]));
     const glyphMarkup = typedGlyphMarkup(lineText, overlay.x, lineY, fontSize, fontFamily, color, xOffsets);
     if (glyphMarkup !== "") {
       parts.push(`  <g class="${id}-text" clip-path="url(#${clipId})">${glyphMarkup}</g>`);
-- 
2.43.0


From a4ce6037cdc7d3883c16ac7d0c61f21a85916d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:41 +0000
Subject: [PATCH 58/95] fix: overlay keyframe stops stay inside their window
 and the loop

---
 src/animation/animator.ts | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 238af28..8b03c97 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -2078,6 +2078,8 @@ function monotoneStops(): { push: (pn: number, decl: string) => void; stops: str
     stops,
     push(pn: number, decl: string): void {
       const p = Math.max(pn, last + 0.01);
+      // Crowded past the loop's end: a stop above 100% is invalid and never reached.
+      if (p > 100) return;
       stops.push(`${p.toFixed(2)}% { ${decl} }`);
       last = p;
     },
@@ -2170,7 +2172,7 @@ function buildTypingLines(
       // glyph. Endpoints use the measured edges, so the parked caret is exact.
       const endPn = pctNum(lineGlyphs[lineGlyphs.length - 1].appearMs, totalDuration);
       const startPct = `${Math.max(0, startPn).toFixed(2)}%`;
-      const endPct = `${Math.max(startPn + 0.01, endPn).toFixed(2)}%`;
+      const endPct = `${Math.min(100, Math.max(startPn + 0.01, endPn)).toFixed(2)}%`;
       cssRules.push(`
     @keyframes ${id}-rev${li} { 0%, ${startPct} { width: ${hiddenW}; } ${endPct} { width: ${fullWidth}px; } ${holdEndPct} { width: ${fullWidth}px; } ${disappearPct}, 100% { width: ${hiddenW}; } }
     .${id}-rev${li} { animation: ${id}-rev${li} ${totalSec.toFixed(2)}s linear infinite; }`);
@@ -2224,7 +2226,7 @@ function buildTypingCaret(
     // on/off every half-period until the overlay disappears.
     const blinkStops: string[] = [
       `0%, ${typeStartPct} { opacity: 0; }`,
-      `${pct(typeStartMs + 30, totalDuration)} { opacity: 1; }`,
+      `${pct(Math.min(typeStartMs + 30, holdEndMs), totalDuration)} { opacity: 1; }`,
       `${pct(textEndMs, totalDuration)} { opacity: 1; }`,
     ];
     let t = textEndMs + blinkMs / 2;
@@ -2406,7 +2408,10 @@ function renderTypingOverlay(
     ? Math.min(frameEnd, holdEndMs + 100)
     : exit.kind === "dissolve" ? Math.min(totalDuration, holdEndMs + exit.ms) : holdEndMs;
   const textHeight = fontSize + 4;
-  const holdEndPct = pct(holdEndMs, totalDuration);
+  // (A window that closes the loop last holds just BEFORE 100%, where the drop is.)
+  const holdEndPct = hardCut
+    ? `${lastOnPct(pctNum(holdEndMs, totalDuration), KEYFRAME_EPSILON.display, 2)}%`
+    : pct(holdEndMs, totalDuration);
   // DM-1749: with the hard cut, the full-opacity stop sits AT the window
   // boundary and the disappear stop an epsilon past it (so the boundary tick
   // belongs to the visible state); the segment between them gets a step-end
@@ -2434,7 +2439,7 @@ function renderTypingOverlay(
       `  <rect class="${id}-bg" x="${overlay.x - 2}" y="${overlay.y - fontSize + 2}" width="${bgW}" height="${bgH}" fill="${maskColor}" rx="2" />`,
     );
     cssRules.push(`
-    @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(typeStartMs + 50, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
+    @keyframes ${id}-bg { 0%, ${bgStartPct} { opacity: 0; } ${pct(Math.min(typeStartMs + 50, holdEndMs), totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
     .${id}-bg { animation: ${id}-bg ${totalSec.toFixed(2)}s infinite; }`);
   }
 
@@ -2460,7 +2465,7 @@ function renderTypingOverlay(
   // Whole-overlay visibility — shared by every line's glyph group.
   const typeStartPct = pct(typeStartMs, totalDuration);
   cssRules.push(`
-    @keyframes ${id}-vis { 0%, ${typeStartPct} { opacity: 0; } ${pct(typeStartMs + 30, totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
+    @keyframes ${id}-vis { 0%, ${typeStartPct} { opacity: 0; } ${pct(Math.min(typeStartMs + 30, holdEndMs), totalDuration)} { opacity: 1; } ${holdEndPct} { opacity: 1;${holdAtf} } ${disappearPct}, 100% { opacity: 0; } }
     .${id}-text { animation: ${id}-vis ${totalSec.toFixed(2)}s infinite; }`);
 
   // Optional blinking insertion caret glued to the growing text edge. In paste
@@ -2503,8 +2508,10 @@ function renderTapOverlay(
   if (windowEnd != null && windowEnd <= tapMs) return { svgMarkup: "", css: "" };
   // Cut the ripple short at the window edge (never stretch it): each stop is
   // clamped, then nudged so the three keyframe stops stay strictly increasing.
-  const cut = windowEnd ?? Infinity;
-  const peakMs = Math.max(tapMs + 1, Math.min(tapMs + rippleDur * 0.3, cut));
+  // The scene's end cuts it too: past 100% there is no keyframe to place.
+  const cut = Math.min(windowEnd ?? Infinity, totalDuration);
+  if (cut - tapMs < 2) return { svgMarkup: "", css: "" };
+  const peakMs = Math.max(tapMs + 1, Math.min(tapMs + rippleDur * 0.3, cut - 1));
   const endMs = Math.max(peakMs + 1, Math.min(tapMs + rippleDur, cut));
 
   const tapStartPct = pct(tapMs, totalDuration);
-- 
2.43.0


From 2ff97278e89ee1a093e7d44697d21abf9dfdfc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:08 +0000
Subject: [PATCH 59/95] fix: the cursor overlay laps with its scene

---
 src/animation/cursor-overlay.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 45e1d83..4fe99c3 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -333,6 +333,12 @@ function overlayUid(seed: string): string {
   return (h >>> 0).toString(36).padStart(6, "0").slice(0, 6);
 }
 
+/** The loop's length as the scene's own animations print it (two decimals): a lap
+ *  even a millisecond off theirs drifts further apart every time round. */
+function lapSeconds(totalDurationMs: number): number {
+  return Number((totalDurationMs / 1000).toFixed(2));
+}
+
 /** Format a 0..1 keyframe fraction as a CSS keyframe percentage. */
 function pct(frac: number): string {
   return `${Number((frac * 100).toFixed(4))}%`;
@@ -356,7 +362,7 @@ export function cursorOverlayMarkup(
   cursorTimeline: CursorTimelineEntry[] | null = null,
 ): string {
   if (positions.length === 0 || totalDurationMs <= 0) return "";
-  const totalSec = totalDurationMs / 1000;
+  const totalSec = lapSeconds(totalDurationMs);
   const uid = overlayUid(`${totalDurationMs}|${positions.map((p) => `${p.x},${p.y},${p.t}`).join(";")}`);
   const kf: string[] = []; // @keyframes collected here, injected into <style>
 
@@ -415,7 +421,7 @@ ${pulseMarkup}
  *  animation only played on the first loop iteration, so the click rings
  *  vanished after the SVG looped even though the cursor kept moving. */
 function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: string[], totalDurationMs: number): string {
-  const totalSec = totalDurationMs / 1000;
+  const totalSec = lapSeconds(totalDurationMs);
   const durMs = c.style.pulseDurationMs;
   const r0 = 4;
   const r1 = c.style.pulseRadius;
-- 
2.43.0


From a32719cc8d5c01832eb116b3e13b90ef8d6e07a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:08 +0000
Subject: [PATCH 60/95] fix: the cursor overlay paints in the colours its style
 asks for

---
 src/animation/cursor-glyphs.ts  | 6 +++---
 src/animation/cursor-overlay.ts | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/animation/cursor-glyphs.ts b/src/animation/cursor-glyphs.ts
index b1ab9e0..db7904a 100644
--- a/src/animation/cursor-glyphs.ts
+++ b/src/animation/cursor-glyphs.ts
@@ -140,7 +140,7 @@ export const CURSOR_CATEGORIES: { title: string; values: string[] }[] = [
  * dark glyph (filled glyphs use a white fill + dark outline). Returns "" for an
  * empty glyph (`none`).
  */
-export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, color = "#1a1a1a"): string {
+export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, color = "#1a1a1a", fill = "#fff"): string {
   const g = CURSOR_GLYPHS[value] ?? CURSOR_GLYPHS.default;
   if (g.body === "") return "";
   const s = size / 24;
@@ -149,8 +149,8 @@ export function cursorGlyphSvg(value: string, x: number, y: number, size = 22, c
   const rot = g.rotate ? ` rotate(${g.rotate} 12 12)` : "";
   const inner = g.fill
     // Filled silhouette: white fill + dark outline (classic arrow look).
-    ? `<g fill="#fff" stroke="${color}" stroke-width="1.4" stroke-linejoin="round">${g.body}</g>`
+    ? `<g fill="${fill}" stroke="${color}" stroke-width="1.4" stroke-linejoin="round">${g.body}</g>`
     // Line-art: white halo stroke under the dark stroke.
-    : `<g fill="none" stroke-linecap="round" stroke-linejoin="round"><g stroke="#fff" stroke-width="3.4">${g.body}</g><g stroke="${color}" stroke-width="1.7">${g.body}</g></g>`;
+    : `<g fill="none" stroke-linecap="round" stroke-linejoin="round"><g stroke="${fill}" stroke-width="3.4">${g.body}</g><g stroke="${color}" stroke-width="1.7">${g.body}</g></g>`;
   return `<g transform="translate(${tx.toFixed(2)} ${ty.toFixed(2)}) scale(${s.toFixed(4)})"><g transform="${rot.trim() || "translate(0 0)"}">${inner}</g></g>`;
 }
diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 4fe99c3..c97598d 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -383,7 +383,7 @@ export function cursorOverlayMarkup(
     const size = 22 * (style.cursorScale || 1);
     const kinds = Array.from(new Set(cursorTimeline.map((e) => e.cursor).filter((c): c is string => c != null)));
     const glyphLayers = kinds.map((kind, gi) => {
-      const glyph = cursorGlyphSvg(kind, 0, 0, size, style.cursorStroke);
+      const glyph = cursorGlyphSvg(kind, 0, 0, size, style.cursorStroke, style.cursorFill);
       const gName = `co-glyph-${uid}-${gi}`;
       kf.push(`@keyframes ${gName}{${cursorTimeline.map((e) => `${pct(e.t / totalDurationMs)}{opacity:${e.cursor === kind ? "1" : "0"}}`).join("")}}`);
       return `      <g opacity="0" style="animation:${gName} ${totalSec}s step-end infinite">
@@ -464,13 +464,13 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
 }
 
 /** macOS-style cursor arrow path. The hot point (0, 0) sits at the tip. */
-function macosCursorPath(scale: number): string {
+function macosCursorPath({ cursorScale: scale, cursorFill, cursorStroke }: CursorStyle): string {
   // Path approximates the macOS pointer: tip at (0, 0), tail extends down and
   // right with a small notch. Stroked white with a thin black outline so it
   // reads on any background.
   const d = "M 0 0 L 0 16 L 4 12 L 7 18 L 9 17 L 6 11 L 12 11 Z";
   const transform = scale !== 1 ? ` transform="scale(${num(scale)})"` : "";
-  return `<path d="${d}" fill="rgb(255,255,255)" stroke="rgb(0,0,0)" stroke-width="1" stroke-linejoin="round"${transform} />`;
+  return `<path d="${d}" fill="${cursorFill}" stroke="${cursorStroke}" stroke-width="1" stroke-linejoin="round"${transform} />`;
 }
 
 function num(n: number): string {
-- 
2.43.0


From 839d531859e06c025aba43fcd3a714ac43971093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:08 +0000
Subject: [PATCH 61/95] fix: automatic cursor moves set out after the previous
 click and arrive for their own

---
 src/cli/animate.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index c0833ce..26e3239 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3631,12 +3631,16 @@ export function buildCursorOverlay(
       const tail = Math.min(CURSOR_CLICK_TAIL_MAX_MS, frames[stage].duration * CURSOR_CLICK_TAIL_FRAC);
       const lastHit = holdEnd - tail;
       const span = Math.max(0, lastHit - start);
+      let prevHit = start;
       targets.forEach((tg, m) => {
         // Single click → land at `lastHit` (just before the transition).
         // Multiple → spread across the hold so the LAST still lands at lastHit.
         const tHit = targets.length === 1 ? lastHit : start + (span * (m + 1)) / targets.length;
-        events.push({ type: "move", t: Math.max(start, tHit - moveDur), duration: moveDur, to: { x: tg.cx, y: tg.cy }, cursor: tg.cursor });
+        // The move sets out after the previous click and arrives for its own.
+        const t = Math.max(prevHit, tHit - moveDur);
+        events.push({ type: "move", t, duration: tHit - t, to: { x: tg.cx, y: tg.cy }, cursor: tg.cursor });
         events.push({ type: "click", t: tHit });
+        prevHit = tHit;
       });
     }
   } else {
-- 
2.43.0


From db370f474d580bb1dfd623bf6fb5b0a92610908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:09 +0000
Subject: [PATCH 62/95] fix: an instant cursor move jumps, and events during a
 slide meet the pointer where it is

---
 src/animation/cursor-overlay.ts | 64 +++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index c97598d..d6050eb 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -106,7 +106,9 @@ export type SelectorResolver = (sel: string, frameIndex: number) => { x: number;
 /** DM-1106: hit-tester for the cursor TYPE at a viewport point in a given frame. */
 export type CursorAtResolver = (x: number, y: number, frameIndex: number) => string;
 
-interface KeyframePoint { t: number; x: number; y: number; visible: boolean; cursor?: string }
+/** `slide`: the pointer travels linearly from this point to the next one; without
+ *  it the point is held until the next one takes over (a jump). */
+interface KeyframePoint { t: number; x: number; y: number; visible: boolean; cursor?: string; slide?: boolean }
 interface ResolvedClick { t: number; x: number; y: number; button: "primary" | "secondary" | "middle"; style: CursorStyle }
 /** A cursor-keyword timeline entry: from time `t` the active glyph is `cursor`
  *  (or null = cursor hidden). DM-1106. */
@@ -157,18 +159,38 @@ export function resolveCursorScript(
   resolveCursorAt: CursorAtResolver | null = null,
 ): { positions: KeyframePoint[]; clicks: ResolvedClick[]; style: CursorStyle; cursorTimeline: CursorTimelineEntry[] | null } {
   const baseStyle: CursorStyle = { ...DEFAULT_STYLE, ...overlay.style };
-  const events = [...overlay.events].sort((a, b) => a.t - b.t);
+  // (Nothing at or past the loop's end is ever reached.)
+  const events = overlay.events.filter((ev) => ev.t < totalDurationMs).sort((a, b) => a.t - b.t);
 
   const positions: KeyframePoint[] = [];
   const clicks: ResolvedClick[] = [];
   let curX = 0;
   let curY = 0;
 
-  const pushKey = (t: number, x: number, y: number, vis: boolean, cursor?: string): void => {
-    positions.push({ t, x, y, visible: vis, cursor });
+  // One point per instant: events that share a `t` replace one another in order
+  // (a point a slide arrives at stays, a hair earlier, for the slide to end on).
+  const hair = totalDurationMs * 2e-6;
+  const pushKey = (t: number, x: number, y: number, vis: boolean, cursor?: string, slide = false): void => {
+    if (positions.length > 0 && positions[positions.length - 1].t >= t) {
+      const replaced = positions.pop()!;
+      const from = positions[positions.length - 1];
+      if (from?.slide === true && from.t < t - hair) positions.push({ ...replaced, t: t - hair, slide: false });
+    }
+    positions.push({ t, x, y, visible: vis, cursor, slide });
     curX = x; curY = y;
   };
 
+  // An event that lands while a slide is under way meets the pointer part-way:
+  // cut the slide there and return its far end, still to be reached.
+  const cutSlide = (t: number): KeyframePoint | null => {
+    const end = positions[positions.length - 1];
+    if (end == null || end.t <= t) return null;
+    const at = stateAtTime(positions, t);
+    positions.pop();
+    pushKey(t, at.x, at.y, at.visible, at.cursor);
+    return end;
+  };
+
   const frameForT = (t: number): number => {
     let idx = 0;
     for (let i = 0; i < frameStartTimes.length; i++) {
@@ -180,20 +202,25 @@ export function resolveCursorScript(
 
   for (const ev of events) {
     if (ev.type === "show") {
+      cutSlide(ev.t);
       pushKey(ev.t, ev.x, ev.y, true, ev.cursor);
     } else if (ev.type === "hide") {
-      pushKey(ev.t, curX, curY, false);
+      const rest = cutSlide(ev.t);
+      pushKey(ev.t, curX, curY, false, undefined, rest != null);
+      if (rest != null) pushKey(rest.t, rest.x, rest.y, false);
     } else if (ev.type === "move") {
       const dur = ev.duration ?? 0;
-      const target = resolveMoveTarget(ev, curX, curY, frameForT(ev.t), resolveSelector);
+      const at = positions.length > 0 ? stateAtTime(positions, ev.t) : { x: curX, y: curY };
+      const target = resolveMoveTarget(ev, at.x, at.y, frameForT(ev.t), resolveSelector);
       if (target == null) continue;
+      cutSlide(ev.t);
       if (dur > 0) {
         // Anchor the cursor at its previous spot when the move begins, then
         // interpolate to the target over `dur`, so it slides rather than popping
         // in mid-frame. (Both the first-positioning and subsequent-move cases
         // emit the same start keyframe — DM-1073 collapsed a no-op branch here.)
         // The `cursor` override (if any) rides the whole slide.
-        pushKey(ev.t, curX, curY, true, ev.cursor);
+        pushKey(ev.t, curX, curY, true, ev.cursor, true);
         pushKey(ev.t + dur, target.x, target.y, true, ev.cursor);
       } else {
         pushKey(ev.t, target.x, target.y, true, ev.cursor);
@@ -201,7 +228,8 @@ export function resolveCursorScript(
     } else if (ev.type === "click") {
       const button = ev.button ?? "primary";
       const style: CursorStyle = { ...baseStyle, ...(ev.style ?? {}) };
-      clicks.push({ t: ev.t, x: curX, y: curY, button, style });
+      const at = positions.length > 0 ? stateAtTime(positions, ev.t) : { x: curX, y: curY };
+      clicks.push({ t: ev.t, x: at.x, y: at.y, button, style });
     }
   }
 
@@ -211,6 +239,12 @@ export function resolveCursorScript(
   if (positions.length === 0 || positions[0].t > 0) {
     positions.unshift({ t: 0, x: positions[0]?.x ?? 0, y: positions[0]?.y ?? 0, visible: false });
   }
+  // A slide still under way when the loop ends stops where it got to.
+  if (positions[positions.length - 1].t > totalDurationMs) {
+    const at = stateAtTime(positions, totalDurationMs);
+    const { visible, cursor } = positions[positions.length - 1];
+    positions[positions.length - 1] = { t: totalDurationMs, x: at.x, y: at.y, visible, cursor };
+  }
   // Anchor a final keyframe at totalDurationMs so animateTransform interpolates
   // through the whole loop.
   if (positions[positions.length - 1].t < totalDurationMs) {
@@ -226,16 +260,16 @@ export function resolveCursorScript(
 }
 
 /** Interpolated cursor state at time `t` from the position keyframes. Position
- *  lerps within a keyframe interval; visibility + the per-segment cursor
+ *  lerps within a slide and is otherwise held; visibility + the per-segment cursor
  *  override are step-held from the interval's start keyframe. */
 function stateAtTime(positions: KeyframePoint[], t: number): { x: number; y: number; visible: boolean; cursor?: string } {
   if (t <= positions[0].t) return positions[0];
   const n = positions.length;
   for (let i = 0; i < n - 1; i++) {
     const a = positions[i], b = positions[i + 1];
-    if (t >= a.t && t <= b.t) {
+    if (t >= a.t && t < b.t) {
       const span = b.t - a.t;
-      const f = span > 0 ? (t - a.t) / span : 0;
+      const f = a.slide === true && span > 0 ? (t - a.t) / span : 0;
       return { x: a.x + (b.x - a.x) * f, y: a.y + (b.y - a.y) * f, visible: a.visible, cursor: a.cursor };
     }
   }
@@ -366,10 +400,10 @@ export function cursorOverlayMarkup(
   const uid = overlayUid(`${totalDurationMs}|${positions.map((p) => `${p.x},${p.y},${p.t}`).join(";")}`);
   const kf: string[] = []; // @keyframes collected here, injected into <style>
 
-  // Position track — linear translate along the keyframes (holds are duplicate
-  // consecutive values, exactly as under SMIL). keyTimes start at 0 and end at 1.
+  // Position track — linear translate along the slides, held (`step-end`) from
+  // every other keyframe to the next. keyTimes start at 0 and end at 1.
   const posName = `co-pos-${uid}`;
-  kf.push(`@keyframes ${posName}{${positions.map((p) => `${pct(p.t / totalDurationMs)}{transform:translate(${num(p.x)}px,${num(p.y)}px)}`).join("")}}`);
+  kf.push(`@keyframes ${posName}{${positions.map((p) => `${pct(p.t / totalDurationMs)}{transform:translate(${num(p.x)}px,${num(p.y)}px)${p.slide === true ? "" : ";animation-timing-function:step-end"}}`).join("")}}`);
   const posAnim = `${posName} ${totalSec}s linear infinite`;
 
   // Pulse fragments — one per click; each pushes its own keyframes into `kf`.
@@ -398,7 +432,7 @@ ${glyphLayers}
     const visName = `co-vis-${uid}`;
     kf.push(`@keyframes ${visName}{${positions.map((p) => `${pct(p.t / totalDurationMs)}{opacity:${p.visible ? "1" : "0"}}`).join("")}}`);
     pointerGroup = `    <g class="cursor-arrow" opacity="0" style="animation:${posAnim},${visName} ${totalSec}s step-end infinite">
-      ${macosCursorPath(style.cursorScale)}
+      ${macosCursorPath(style)}
     </g>`;
   }
 
-- 
2.43.0


From 1f0a9eb8e16c9da96a5c7ef159e156f00586bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:15 +0000
Subject: [PATCH 63/95] fix: a block caret repaints the addressed character,
 descendant runs included

---
 src/animation/caret-track.ts  | 54 ++++++-----------------------------
 src/animation/text-address.ts | 38 ++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/animation/caret-track.ts b/src/animation/caret-track.ts
index 4da8e03..882a73a 100644
--- a/src/animation/caret-track.ts
+++ b/src/animation/caret-track.ts
@@ -41,7 +41,7 @@
 
 import type { CapturedElement } from "../capture/types.js";
 import { caretShapeRect, BLOCK_CARET_ALPHA, DEFAULT_CARET_WIDTH_PX, type CaretShape } from "./caret-metrics.js";
-import { resolveCaretPoint, resolveRangeRects, findAddressedElement, type CaretPoint, type SelectionRectPlan, type TextAddressTarget } from "./text-address.js";
+import { resolveCaretPoint, resolveRangeRects, resolveAddressedCharacter, type CaretPoint, type SelectionRectPlan, type TextAddressTarget } from "./text-address.js";
 import { renderTextAsPath } from "../render/text-to-path.js";
 import { withRenderTextMode } from "../render/font-resolution.js";
 
@@ -235,56 +235,20 @@ export function resolveTextTrack(roots: CapturedElement[], spec: TextTrackSpec):
 /**
  * The covered character (and its captured font) at code-point `charOffset`
  * within the addressed element — the glyph a block-invert caret repaints in the
- * inverse color. Resolved node-side from the captured tree via the exported
- * {@link findAddressedElement}, walking the element's horizontal text runs in
- * captured order (falling back to the input-value run). Kept LOCAL — a focused
- * read rather than an addressing-engine change — so `text-address.ts` stays
- * untouched. Returns null for an unresolved target, an out-of-range offset, or
- * `charOffset === length` (the after-last-char slot: an empty cell with no glyph
- * to invert).
+ * inverse color. Read through the addressing engine, so it is the character the
+ * caret geometry resolved to, descendant runs included. Returns null for an
+ * unresolved target, an out-of-range offset, or `charOffset === length` (the
+ * after-last-char slot: an empty cell with no glyph to invert).
  *
- * VERTICAL-writing segments are skipped: repainting a column glyph needs the
+ * VERTICAL-writing characters are skipped: repainting a column glyph needs the
  * renderer's upright/rotated placement, which this standalone repaint doesn't
  * reproduce, so a vertical block-invert caret degrades to the translucent
  * 0.5-alpha block and the page's own glyph shows through (docs/101 Limits).
  */
 function resolveCoveredGlyph(roots: CapturedElement[], target: TextAddressTarget, charOffset: number): CoveredGlyph | null {
-  if (charOffset < 0) return null;
-  const el = findAddressedElement(roots, target);
-  if (el == null) return null;
-  const elFamily = el.styles.fontFamily;
-  const elWeight = el.styles.fontWeight;
-  const elStyle = el.styles.fontStyle;
-  const elSize = parseFloat(el.styles.fontSize) || 14;
-
-  interface CoveredRun { text: string; fontFamily: string; fontWeight: string; fontStyle?: string; fontSize: number; }
-  const runs: CoveredRun[] = [];
-  if (el.textSegments != null && el.textSegments.length > 0) {
-    for (const seg of el.textSegments) {
-      if (seg.verticalWritingMode != null || seg.text.length === 0) continue;
-      runs.push({
-        text: seg.text,
-        fontFamily: seg.fontFamily ?? elFamily,
-        fontWeight: seg.fontWeight ?? elWeight,
-        fontStyle: seg.fontStyle ?? elStyle,
-        fontSize: seg.fontSize ?? elSize,
-      });
-    }
-  } else if (el.text !== "" && (el.inputXOffsets != null || el.textLeft != null)) {
-    runs.push({ text: el.text, fontFamily: elFamily, fontWeight: elWeight, fontStyle: elStyle, fontSize: elSize });
-  }
-  if (runs.length === 0) return null;
-
-  let remaining = charOffset;
-  for (const run of runs) {
-    for (const ch of run.text) {
-      if (remaining === 0) {
-        return { char: ch, fontFamily: run.fontFamily, fontWeight: run.fontWeight, fontStyle: run.fontStyle, fontSize: run.fontSize };
-      }
-      remaining--;
-    }
-  }
-  return null;
+  const at = resolveAddressedCharacter(roots, target, charOffset);
+  if (at == null || at.vertical) return null;
+  return { char: at.char, fontFamily: at.fontFamily, fontWeight: at.fontWeight, fontStyle: at.fontStyle, fontSize: at.fontSize };
 }
 
 // ── Emission ────────────────────────────────────────────────────────────────
diff --git a/src/animation/text-address.ts b/src/animation/text-address.ts
index 125e66e..cd52877 100644
--- a/src/animation/text-address.ts
+++ b/src/animation/text-address.ts
@@ -213,6 +213,7 @@ interface TextRun {
   descentPx: number;
   fontFamily: string;
   fontWeight: string;
+  fontStyle?: string;
   /** The owning element's CSS `direction` — the paragraph direction bidi level
    *  resolution runs under. `"ltr"` unless the capture said otherwise. */
   dir: "ltr" | "rtl";
@@ -276,6 +277,7 @@ function elementOwnRuns(el: CapturedElement): TextRun[] {
         descentPx: descent,
         fontFamily: seg.fontFamily ?? fontFamily,
         fontWeight: seg.fontWeight ?? fontWeight,
+        fontStyle: seg.fontStyle ?? el.styles.fontStyle,
         dir,
         ...(seg.verticalWritingMode != null
           ? {
@@ -303,6 +305,7 @@ function elementOwnRuns(el: CapturedElement): TextRun[] {
       descentPx: descent,
       fontFamily,
       fontWeight,
+      fontStyle: el.styles.fontStyle,
       dir,
     }];
   }
@@ -771,6 +774,41 @@ export function resolveCaretPoint(roots: CapturedElement[], target: TextAddressT
   };
 }
 
+/** A single addressed character and the font it was captured in. */
+export interface AddressedCharacter {
+  char: string;
+  fontFamily: string;
+  fontWeight: string;
+  fontStyle?: string;
+  fontSize: number;
+  /** True when the character stacks down a column (vertical writing). */
+  vertical: boolean;
+}
+
+/**
+ * The character `charOffset` names — located through the same reading-order
+ * runs as {@link resolveCaretPoint}, so the two always agree on which character
+ * an address refers to. Returns null for an unresolved target, an out-of-range
+ * offset, or the after-last-character slot.
+ */
+export function resolveAddressedCharacter(roots: CapturedElement[], target: TextAddressTarget, charOffset: number): AddressedCharacter | null {
+  const el = findAddressedElement(roots, target);
+  if (el == null) return null;
+  const runs = elementTextRuns(el);
+  const loc = locateOffset(runs, charOffset);
+  if (loc == null) return null;
+  const run = runs[loc.runIndex];
+  if (loc.utf16 >= run.text.length) return null;
+  return {
+    char: run.text.slice(loc.utf16, loc.utf16 + codePointLengthAt(run.text, loc.utf16)),
+    fontFamily: run.fontFamily,
+    fontWeight: run.fontWeight,
+    fontStyle: run.fontStyle,
+    fontSize: run.fontSize,
+    vertical: run.vertical != null,
+  };
+}
+
 /** UTF-16 length of the code point starting at `u` (2 for a surrogate pair). */
 function codePointLengthAt(text: string, u: number): number {
   const cp = text.codePointAt(u);
-- 
2.43.0


From 78c122938862b00dfd737925e9232dd5aa8ab6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:16 +0000
Subject: [PATCH 64/95] fix: a selection cleared mid-sweep stops growing at the
 clear

---
 src/animation/caret-track.ts | 44 +++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/animation/caret-track.ts b/src/animation/caret-track.ts
index 882a73a..0f9435e 100644
--- a/src/animation/caret-track.ts
+++ b/src/animation/caret-track.ts
@@ -503,30 +503,42 @@ function selectionMarkup(sel: ResolvedSelection, si: number, uid: string, kf: st
     const sweptTo = (edge: number): number => (rtl && !vertical ? anchor - edge : edge - anchor);
     const stops: string[] = [`0%{${prop}:0.01px}`];
     if (startMs > 0) stops.push(`${pct(startMs, totalDurationMs)}{${prop}:0.01px}`);
-    if (sel.sweepMs > 0 && rect.edges.length > 0) {
-      if (discrete) {
+    // Discrete sweeps (and instant selections) step per stop; the coarse
+    // fallback interpolates linearly between its endpoints.
+    const timing = discrete || sel.sweepMs === 0 ? "step-end" : "linear";
+    // The sweep stops growing when the selection is cleared (or the timeline
+    // ends) part-way through it: no stop may land past that instant.
+    const clearT = sel.clearT != null && sel.clearT <= totalDurationMs ? sel.clearT : null;
+    const limitMs = clearT ?? totalDurationMs;
+    const endMs = sel.t + (sweptBefore + rect.edges.length) * perCharMs;
+    // Under `linear` a clear must still SNAP, so the extent reached by then is
+    // held from just before the clear time.
+    const holdMs = clearT != null ? Math.max(sel.t, clearT - 1) : totalDurationMs;
+    const linearExtentAt = (ms: number): number =>
+      ms >= endMs ? fullExtent : ms <= startMs ? 0.01 : fullExtent * (ms - startMs) / (endMs - startMs);
+    let lastExtent = 0.01;
+    if (startMs < limitMs) {
+      if (timing === "linear") {
+        if (endMs < holdMs) stops.push(`${pct(endMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
+        lastExtent = linearExtentAt(holdMs);
+        if (clearT != null) stops.push(`${pct(holdMs, totalDurationMs)}{${prop}:${num(lastExtent)}px}`);
+      } else if (sel.sweepMs > 0 && rect.edges.length > 0) {
         for (let k = 0; k < rect.edges.length; k++) {
           const t = sel.t + (sweptBefore + k + 1) * perCharMs;
-          stops.push(`${pct(t, totalDurationMs)}{${prop}:${num(sweptTo(rect.edges[k]))}px}`);
+          if (t >= limitMs) break;
+          lastExtent = sweptTo(rect.edges[k]);
+          stops.push(`${pct(t, totalDurationMs)}{${prop}:${num(lastExtent)}px}`);
         }
       } else {
-        const endMs = sel.t + (sweptBefore + rect.edges.length) * perCharMs;
-        stops.push(`${pct(endMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
+        lastExtent = fullExtent;
+        stops.push(`${pct(startMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
       }
-    } else {
-      stops.push(`${pct(startMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
     }
-    // Discrete sweeps (and instant selections) step per stop; the coarse
-    // fallback interpolates linearly between its endpoints. Under `linear`
-    // timing, a clear must still SNAP — so a full-extent hold stop lands just
-    // before the clear time (duplicate adjacent values hold under linear).
-    const timing = discrete || sel.sweepMs === 0 ? "step-end" : "linear";
-    if (sel.clearT != null) {
-      if (timing === "linear") stops.push(`${pct(Math.max(sel.t, sel.clearT - 1), totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
-      stops.push(`${pct(sel.clearT, totalDurationMs)}{${prop}:0.01px}`);
+    if (clearT != null) {
+      stops.push(`${pct(clearT, totalDurationMs)}{${prop}:0.01px}`);
       stops.push(`100%{${prop}:0.01px}`);
     } else {
-      stops.push(`100%{${prop}:${num(fullExtent)}px}`);
+      stops.push(`100%{${prop}:${num(lastExtent)}px}`);
     }
     kf.push(`@keyframes ${name}{${stops.join("")}}`);
     const place = rtl && !vertical
-- 
2.43.0


From 1535d40927486cf69b62617bb11d8b53c53eb55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:54 +0000
Subject: [PATCH 65/95] fix: a compressed run defines each shared glyph once

---
 src/animation/compressed-run.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 5a3de25..b44be52 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -1497,7 +1497,8 @@ export function composeCompressedRun(states: CompressedRunState[], opts: Compres
   // Render the two layers through the production pipeline. Chrome first
   // (below), glyphs above — the occlusion guard demoted anything a later
   // box-painting element overlaps, so this flattening is paint-safe.
-  const chromeInner = elementTreeToSvgInner(chromeTree, width, height, `${uid}c-`, true, 2, false);
+  // The glyph definitions are shared: the last of the two renders emits them.
+  const chromeInner = elementTreeToSvgInner(chromeTree, width, height, `${uid}c-`, glyphEls.length === 0, 2, false);
   const glyphInner = glyphEls.length > 0 ? elementTreeToSvgInner(glyphEls, width, height, `${uid}g-`, true, 2, false) : "";
 
   // Behind-glyph selection: docs/101 selection rects resolved against each
-- 
2.43.0


From 5c697ed60831e4b1085071aef6fda34206cc0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:54 +0000
Subject: [PATCH 66/95] fix: text with source newlines is painted from its
 captured segments

---
 src/render/element-tree-to-svg.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index c5d4496..b81f617 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -982,6 +982,13 @@ function renderOneText(
     // carries Chrome's own wrapping).
     if (opts.el.tag === "input" || opts.el.tag === "textarea") return wrapAffineTextPaint(opts.affineMatrix, renderInputText(optsWithEmit));
     if (hasMultipleSegments) return wrapAffineTextPaint(opts.affineMatrix, renderMultiSegmentText(optsWithEmit, opts.el.textSegments!));
+    // A newline in the element text only says the SOURCE had one. Captured
+    // segments already hold every painted line, so even a lone segment is
+    // painted as a segment: with its own face, decorations and overlays, and
+    // clipped only where the element clips.
+    if (isMultiLine && opts.el.textSegments != null && opts.el.textSegments.length > 0) {
+      return wrapAffineTextPaint(opts.affineMatrix, renderMultiSegmentText(optsWithEmit, opts.el.textSegments));
+    }
     if (isMultiLine) return wrapAffineTextPaint(opts.affineMatrix, renderMultiLineText(optsWithEmit));
     return wrapAffineTextPaint(opts.affineMatrix, renderSingleLineText(optsWithEmit));
   } catch (e) {
-- 
2.43.0


From f1c31bbafd9972fc456324b7ed2de672d85c49c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:05 +0000
Subject: [PATCH 67/95] fix: a compressed run keeps an element's own text
 inside its overflow clip

---
 src/animation/compressed-run.ts | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index b44be52..7070606 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -337,6 +337,14 @@ function maxBorderRadius(el: CapturedElement): number {
   return Math.max(num(s.borderRadius), num(s.borderTopLeftRadius), num(s.borderTopRightRadius), num(s.borderBottomRightRadius), num(s.borderBottomLeftRadius));
 }
 
+/** The padding box an overflow-clipping element clips its content to (with the
+ *  corner inset its text must additionally stay clear of). */
+function clipBoxOf(el: CapturedElement): AncestorCtx["clips"][number] {
+  const s = el.styles;
+  const t = num(s.borderTopWidth), r = num(s.borderRightWidth), b = num(s.borderBottomWidth), l = num(s.borderLeftWidth);
+  return { x: el.x + l, y: el.y + t, w: el.width - l - r, h: el.height - t - b, inset: Math.max(0, maxBorderRadius(el) - Math.min(t, r, b, l)) };
+}
+
 /** Does this element's OWN style block glyph-layer handling for it AND its
  *  descendants (transform/filter/opacity/mask/clip/blend, propagating
  *  decorations, gradient text fills)? */
@@ -595,7 +603,11 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
     else if (isRegionRoot) ctx = { ...ctx, region: regionKeyOf(el) };
     // A demoted region's text stays in the chrome tree (the ineligible path):
     // skip glyph extraction so `strip` leaves its `textSegments` intact.
-    if (elementTextEligible(el, ctx) && !occluded(el) && !demoted.has(ctx.region)) {
+    // An element's overflow clips its own text as well as its descendants', at
+    // the padding box.
+    const clip = (v: string | undefined): boolean => v === "hidden" || v === "clip" || v === "scroll" || v === "auto";
+    const clips = clip(el.styles.overflowX) || clip(el.styles.overflowY) ? [...ctx.clips, clipBoxOf(el)] : ctx.clips;
+    if (elementTextEligible(el, clips === ctx.clips ? ctx : { ...ctx, clips }) && !occluded(el) && !demoted.has(ctx.region)) {
       eligible.add(el);
       for (const seg of el.textSegments!) {
         const xs = seg.xOffsets!;
@@ -627,9 +639,7 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
       clips: ctx.clips,
       region: ctx.region,
     };
-    const clip = (v: string | undefined): boolean => v === "hidden" || v === "clip" || v === "scroll" || v === "auto";
-    if (clip(el.styles.overflowX) || clip(el.styles.overflowY)) {
-      childCtx.clips = [...ctx.clips, { x: el.x, y: el.y, w: el.width, h: el.height, inset: maxBorderRadius(el) }];
+    if (clips !== ctx.clips) {
       // The innermost clipping ancestor IS the region (see `regionKeyOf`) —
       // unless this element is a DECLARED root, whose name already claimed it.
       if (declared == null) childCtx.region = regionKeyOf(el);
-- 
2.43.0


From c31d5d1635e92f01ebe382c2c7cd7c337033f06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:14 +0000
Subject: [PATCH 68/95] fix: a compressed run keeps text below shadows,
 outlines and moved boxes painted over it

---
 src/animation/compressed-run.ts | 59 +++++++++++++++++++++++++++++++--
 src/render/culling-geometry.ts  |  2 +-
 2 files changed, 57 insertions(+), 4 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 7070606..3bd1b65 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -105,6 +105,9 @@
 
 import type { CapturedElement, TextSegment } from "../capture/types.js";
 import { elementTreeToSvgInner } from "../render/element-tree-to-svg.js";
+import { multiplySvgAffine, type SvgAffineMatrix } from "../capture/svg-affine-freeze.js";
+import { parseBoxShadow } from "../render/box-shadow.js";
+import { elementStaticMatrix } from "../render/culling-geometry.js";
 import { paintOrderHitSequence } from "../render/paint-order.js";
 import { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } from "../render/index.js";
 import { alignLineGlyphs, type AlignGlyph } from "./glyph-align.js";
@@ -323,6 +326,42 @@ function paintsBox(el: CapturedElement): boolean {
   return REPLACED.has(el.tag);
 }
 
+/** Where an element's box lands: the transforms of the element and its
+ *  ancestors (null when they are not affine), and how far filters spread it. */
+interface Placement { matrix: SvgAffineMatrix | null; spill: number }
+
+/** A bound on how far a filter list paints outside its source (a blur reaches
+ *  three standard deviations; a shadow also moves). */
+function filterSpill(filter: string | undefined): number {
+  let sum = 0;
+  for (const m of (filter ?? "").matchAll(/(-?\d*\.?\d+)px/g)) sum += 3 * Math.abs(Number(m[1]));
+  return sum;
+}
+
+/** The rectangle everything an occluder paints lies in: its border box grown by
+ *  its outline and outer shadows, then moved by the transforms around it. */
+function occluderBounds(el: CapturedElement, at: Placement): { x: number; y: number; w: number; h: number; moved: boolean } {
+  const s = el.styles;
+  const outline = s.outlineStyle != null && s.outlineStyle !== "none" ? Math.max(0, num(s.outlineWidth) + num(s.outlineOffset)) : 0;
+  let l = outline, t = outline, r = outline, b = outline;
+  for (const sh of s.boxShadow != null && s.boxShadow !== "" ? parseBoxShadow(s.boxShadow) : []) {
+    if (sh.inset) continue;
+    const reach = sh.spread + sh.blur * 1.5;
+    l = Math.max(l, reach - sh.x); r = Math.max(r, reach + sh.x);
+    t = Math.max(t, reach - sh.y); b = Math.max(b, reach + sh.y);
+  }
+  const m = at.matrix!;
+  const xs: number[] = [], ys: number[] = [];
+  for (const x of [el.x - l - at.spill, el.x + el.width + r + at.spill]) {
+    for (const y of [el.y - t - at.spill, el.y + el.height + b + at.spill]) {
+      xs.push(m.a * x + m.c * y + m.e); ys.push(m.b * x + m.d * y + m.f);
+    }
+  }
+  const x = Math.min(...xs), y = Math.min(...ys);
+  const moved = m.a !== 1 || m.b !== 0 || m.c !== 0 || m.d !== 1 || m.e !== 0 || m.f !== 0;
+  return { x, y, w: Math.max(...xs) - x, h: Math.max(...ys) - y, moved };
+}
+
 /** Ancestor state threaded down the eligibility walk. */
 interface AncestorCtx {
   blocked: boolean;
@@ -569,6 +608,17 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
   const paintIndex = new Map<CapturedElement, number>();
   for (let i = 0; i < order.length; i++) paintIndex.set(order[i].el, i);
 
+  const placement = new Map<CapturedElement, Placement>();
+  const place = (el: CapturedElement, outer: Placement): void => {
+    const own = elementStaticMatrix(el);
+    const matrix = own === "identity" ? outer.matrix
+      : own == null || outer.matrix == null ? null : multiplySvgAffine(outer.matrix, own);
+    const here = { matrix, spill: outer.spill + filterSpill(el.styles.filter) };
+    placement.set(el, here);
+    for (const c of el.children) place(c, here);
+  };
+  for (const root of tree) place(root, { matrix: { a: 1, b: 0, c: 0, d: 1, e: 0, f: 0 }, spill: 0 });
+
   const occluded = (el: CapturedElement): boolean => {
     const mine = paintIndex.get(el);
     if (mine == null || el.textSegments == null) return true;
@@ -576,9 +626,12 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
       const f = order[i];
       if (!paintsBox(f.el)) continue;
       // The occluder only paints inside its own overflow clips.
-      let fx = f.el.x, fy = f.el.y;
-      let fr = fx + f.el.width, fb = fy + f.el.height;
-      for (const c of f.clips) {
+      const at = placement.get(f.el);
+      if (at == null || at.matrix == null) return true;
+      const painted = occluderBounds(f.el, at);
+      let fx = painted.x, fy = painted.y;
+      let fr = fx + painted.w, fb = fy + painted.h;
+      if (!painted.moved) for (const c of f.clips) {
         fx = Math.max(fx, c.x); fy = Math.max(fy, c.y);
         fr = Math.min(fr, c.x + c.w); fb = Math.min(fb, c.y + c.h);
       }
diff --git a/src/render/culling-geometry.ts b/src/render/culling-geometry.ts
index 56c4230..deb352c 100644
--- a/src/render/culling-geometry.ts
+++ b/src/render/culling-geometry.ts
@@ -238,7 +238,7 @@ function parseOptionalColor(value: string | undefined): ReturnType<typeof parseC
   return value == null || value === "" ? null : parseColor(value);
 }
 
-function elementStaticMatrix(el: CapturedElement): SvgAffineMatrix | "identity" | null {
+export function elementStaticMatrix(el: CapturedElement): SvgAffineMatrix | "identity" | null {
   const projective = el.projectiveTransform;
   if (projective != null) {
     if (projective.length !== 9 || projective.some((value) => !Number.isFinite(value))) return null;
-- 
2.43.0


From ca9f79ea736ee75997e9b1b2f9df82812ac5b034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:14 +0000
Subject: [PATCH 69/95] fix: a compressed run's box variants keep their place
 in the paint order

---
 src/animation/compressed-run.ts | 54 ++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 3bd1b65..f4efbf0 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -110,6 +110,7 @@ import { parseBoxShadow } from "../render/box-shadow.js";
 import { elementStaticMatrix } from "../render/culling-geometry.js";
 import { paintOrderHitSequence } from "../render/paint-order.js";
 import { clearEmbeddedFonts, clearGlyphDefs, getEmbeddedFontFaceCss } from "../render/index.js";
+import { establishesStackingContext, isFlexOrGridContainerDisplay, isNonPositionedFloat } from "../render/stacking.js";
 import { alignLineGlyphs, type AlignGlyph } from "./glyph-align.js";
 import { textTrackMarkup, CARET_BLINK_MS, DEFAULT_SELECTION_COLOR, type ResolvedTextTrack, type ResolvedSelection } from "./caret-track.js";
 import { DEFAULT_CARET_WIDTH_PX, type CaretShape } from "./caret-metrics.js";
@@ -689,7 +690,7 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
     }
     const childCtx: AncestorCtx = {
       blocked: ctx.blocked || stylesBlockSubtree(el),
-      clips: ctx.clips,
+      clips,
       region: ctx.region,
     };
     if (clips !== ctx.clips) {
@@ -1166,6 +1167,16 @@ function deepKeyOf(el: CapturedElement): string {
   return k;
 }
 
+/** Can the renderer lift this element out of its parent's group into an
+ *  enclosing stacking context's paint list (positioned, floated, flex/grid
+ *  item, or a stacking context of its own)? */
+function mayPaintOutsideParent(el: CapturedElement, parentDisplay: string | undefined): boolean {
+  return (el.styles.position ?? "static") !== "static"
+    || isNonPositionedFloat(el)
+    || isFlexOrGridContainerDisplay(parentDisplay)
+    || establishesStackingContext(el, parentDisplay);
+}
+
 const lastWindow = (n: UnionNode): { start: number; end: number } => n.windows[n.windows.length - 1];
 
 /** Deep key of a union node's ACTIVE subtree at merge time (its own record +
@@ -1490,23 +1501,38 @@ export function composeCompressedRun(states: CompressedRunState[], opts: Compres
   // Chrome union → element tree + display tracks.
   let chromeTrackCount = 0;
   const fullWindows = JSON.stringify([{ start: 0, end: stateCount }]);
-  const emitUnion = (node: UnionNode, parentWindows: string): CapturedElement => {
+  const gateClasses = new Map<string, string | null>();
+  const gateClassFor = (windows: UnionNode["windows"], key: string): string | null => {
+    const seen = gateClasses.get(key);
+    if (seen !== undefined) return seen;
+    const visible: string[] = [];
+    for (let s = 0; s < stateCount; s++) {
+      visible.push(windows.some((w) => s >= w.start && s < w.end) ? "inline" : "none");
+    }
+    const anim = css.track("display", visible, boundaries);
+    const cls = anim != null ? `anim-${uid}c${gateClasses.size}` : null;
+    if (anim != null) css.assign(`.${cls}`, [anim]);
+    gateClasses.set(key, cls);
+    return cls;
+  };
+  const emitUnion = (node: UnionNode, parentWindows: string, parentDisplay: string | undefined): CapturedElement => {
     const mine = JSON.stringify(node.windows);
-    const el: CapturedElement = { ...node.el, children: node.children.map((c) => emitUnion(c, mine)) };
-    if (mine !== parentWindows) {
-      const id = `${uid}c${chromeTrackCount++}`;
-      el.animId = id;
-      const visible: string[] = [];
-      for (let s = 0; s < stateCount; s++) {
-        visible.push(node.windows.some((w) => s >= w.start && s < w.end) ? "inline" : "none");
-      }
-      const anim = css.track("display", visible, boundaries);
-      if (anim != null) css.assign(`.anim-${id}`, [anim]);
-      else if (visible[0] === "none") el.displayNone = true; // never visible
+    const el: CapturedElement = { ...node.el, children: node.children.map((c) => emitUnion(c, mine, node.el.styles.display)) };
+    // The gate rides the cull wrapper, NOT `animId`: an `animId` element is
+    // rendered as a stacking context, which would lift an ordinary in-flow
+    // variant above its later siblings (and trap its positioned descendants).
+    // A descendant the renderer may hoist out of a gated ancestor's group
+    // carries the gate itself.
+    const gated = mine !== parentWindows;
+    if (gated) chromeTrackCount++;
+    if (gated || (mine !== fullWindows && mayPaintOutsideParent(el, parentDisplay))) {
+      const cls = gateClassFor(node.windows, mine);
+      if (cls != null) el.cullClass = cls;
+      else if (gated && node.windows.length === 0) el.displayNone = true; // never visible
     }
     return el;
   };
-  const chromeTree = plan.chromeRoots.map((n) => emitUnion(n, fullWindows));
+  const chromeTree = plan.chromeRoots.map((n) => emitUnion(n, fullWindows, undefined));
 
   // Glyph groups → synthetic elements + opacity/transform/fill tracks.
   const glyphEls: CapturedElement[] = [];
-- 
2.43.0


From ea24b7e997431d7d69623d330439d743c20776d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:19 +0000
Subject: [PATCH 70/95] fix: glyph outlines stay at their captured positions
 along the whole line

---
 src/render/text-to-path.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/render/text-to-path.ts b/src/render/text-to-path.ts
index 8dc287e..4def9f1 100644
--- a/src/render/text-to-path.ts
+++ b/src/render/text-to-path.ts
@@ -1038,7 +1038,7 @@ function renderTextPathRuns(
             })()
             : positionShapedClusters(
               segText, shapeText, layout.glyphs, layout.positions, shapedClusters,
-              xOffsets, run.startIdx + seg.start, runScale, segMinX, seg.rtl, flipToNative,
+              xOffsets, run.startIdx + seg.start, sc, segMinX, seg.rtl, flipToNative,
             );
           let maxRightCss = segMinX;
           for (let gi = 0; gi < layout.glyphs.length; gi++) {
@@ -1435,7 +1435,7 @@ function singleFontMarkup(
         );
       if (textIdx < xOffsets.length && dCmds.length > 0) {
         const defId = ensureGlyphDef(fontKey, weight, fontSize, slant, glyph.id, dCmds, stretch);
-        const tx = xOffsets[textIdx] / scale + pos.xOffset;
+        const tx = xOffsets[textIdx] / sc + pos.xOffset;
         const ty = -pos.yOffset;
         uses.push(`<use href="#${defId}" x="${r2(tx)}" y="${r2(ty)}"/>`);
       }
@@ -1508,7 +1508,7 @@ function singleFontMarkup(
         // SVG renderer's concern. Convert CSS pixels → font units by
         // dividing by `scale`. pos.xOffset (the font's per-glyph subpixel
         // offset, in font units) is added in font-unit space.
-        tx = xOffsets![i] / scale + pos.xOffset;
+        tx = xOffsets![i] / sc + pos.xOffset;
         // DM-1184: when Chrome trimmed this fullwidth-punctuation glyph under
         // `text-spacing-trim` — detectable as a captured advance ~half the full
         // em — shift its ink by the font's `halt` xOffset so the full-width
-- 
2.43.0


From 279c6cccc0551c830ec2ae26e09a18b9a217439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:19 +0000
Subject: [PATCH 71/95] fix: text is filled with its text-fill-color

---
 src/animation/compressed-run.ts   | 2 +-
 src/render/element-tree-to-svg.ts | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index f4efbf0..9603683 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -669,7 +669,7 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
         const ascent = seg.fontAscent ?? el.fontAscent ?? fontSize * 0.8;
         const descent = el.fontDescent ?? fontSize * 0.2;
         const styleKey = styleKeyOf(el, seg);
-        const fillResolved = seg.color ?? el.styles.color;
+        const fillResolved = seg.color ?? (el.styles.webkitTextFillColor || el.styles.color);
         let u = 0;
         for (const ch of seg.text) {
           const x = xs[u];
diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index b81f617..97f4707 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -1021,8 +1021,8 @@ function renderOneText(
 // color to the gradient's def URL captured from the text-clipped bg layer above.
 // We honor this when the rendered text is actually transparent (text-fill-color
 // or color is alpha-zero); if the author left text-fill-color opaque we just
-// paint the color, which is what Chrome would paint on top of the (clipped)
-// gradient anyway.
+// paint it (it takes the place of `color` for glyph fills), which is what
+// Chrome would paint on top of the (clipped) gradient anyway.
 //
 // This is the leading sub-phase of paintText (extracted in DM-1436 item 1 as a
 // pure code move). It may allocate a "bg" gradient def via ctx.nextClipId and
@@ -1069,7 +1069,7 @@ function resolveTextFill(
   }
   const fillColor = (topmostTextBgClipFill != null && textIsTransparent)
     ? topmostTextBgClipFill
-    : (textColor != null ? colorStr(textColor) : "#e6edf3");
+    : ((tfc ?? textColor) != null ? colorStr((tfc ?? textColor)!) : "#e6edf3");
   return { fillColor, textIsTransparent };
 }
 
-- 
2.43.0


From 173fb61135a9cb42534dfd614106863270485991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:19 +0000
Subject: [PATCH 72/95] fix: a text shadow is painted wholly in its own colour
 and place

---
 src/render/element-tree-to-svg.ts | 81 ++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/src/render/element-tree-to-svg.ts b/src/render/element-tree-to-svg.ts
index 97f4707..bd83ef3 100644
--- a/src/render/element-tree-to-svg.ts
+++ b/src/render/element-tree-to-svg.ts
@@ -1010,6 +1010,48 @@ function renderOneText(
   }
 }
 
+/** The copy of an element's text a shadow paints: moved by the shadow's offset
+ *  and wholly in its colour — glyphs (whatever a segment's own colour), stroke,
+ *  decorations and emphasis alike. Raster overlays carry baked pixels and boxes
+ *  are not text, so neither casts a shadow; a character suppressed in favour of
+ *  another paint stays suppressed. A segment with its own text-shadow does not
+ *  take part in the element's. */
+function textShadowCopy(el: CapturedElement, dx: number, dy: number, color: string): CapturedElement {
+  const segments = el.textSegments?.filter((s) => s.textShadow == null || s.textShadow === "");
+  // A lone remaining segment is painted from the element's text origin.
+  const lone = segments != null && segments.length === 1 && segments.length < el.textSegments!.length ? segments[0] : undefined;
+  const left = lone?.x ?? el.textLeft, top = lone?.y ?? el.textTop;
+  return {
+    ...el,
+    x: el.x + dx,
+    y: el.y + dy,
+    textLeft: left != null ? left + dx : undefined,
+    textTop: top != null ? top + dy : undefined,
+    textWidth: lone?.width ?? el.textWidth,
+    inputXOffsets: el.inputXOffsets?.map((v) => v + dx),
+    placeholderColor: undefined,
+    propagatedDecorations: el.propagatedDecorations?.map((d) => ({ ...d, color, baselines: d.baselines?.map((v) => v + dy) })),
+    styles: {
+      ...el.styles,
+      textDecorationColor: color,
+      textEmphasisColor: color,
+      webkitTextStrokeColor: color,
+    },
+    textSegments: segments?.map((s) => ({
+      ...s,
+      x: s.x + dx,
+      y: s.y + dy,
+      xOffsets: s.xOffsets?.map((v) => v + dx),
+      yOffsets: s.yOffsets?.map((v) => v + dy),
+      color: undefined,
+      pseudoBox: undefined,
+      rasterRect: undefined,
+      rasterDataUri: undefined,
+      rasterGlyphs: s.rasterGlyphs?.filter((g) => g.suppressGlyph === true && g.rect.width === 0 && g.rect.height === 0),
+    })),
+  };
+}
+
 // Resolve the fill for an element's text, handling the `background-clip: text`
 // gradient-headline pattern. Returns the SVG fill string plus whether the text
 // itself is transparent (the caller needs the latter to choose between the
@@ -1153,26 +1195,8 @@ function paintText(
       const sh = textShadows[si];
       if (sh.inset) continue; // text-shadow has no inset; defensive
       const shadowFillColor = colorStr(parseColor(sh.color) ?? { r: 0, g: 0, b: 0, a: 0 });
-      const shifted: CapturedElement = {
-        ...el,
-        x: el.x + sh.x,
-        y: el.y + sh.y,
-        textLeft: el.textLeft != null ? el.textLeft + sh.x : undefined,
-        textTop: el.textTop != null ? el.textTop + sh.y : undefined,
-        textSegments: el.textSegments?.map((s) => ({
-          ...s,
-          x: s.x + sh.x,
-          y: s.y + sh.y,
-          xOffsets: s.xOffsets?.map((v) => v + sh.x),
-          // The shadow shouldnt double-stamp emoji/raster overlays —
-          // those already carry their own pixel-baked color and shifting
-          // them paints the same emoji again. Drop them on the shadow
-          // copy so only the path text gets shadowed.
-          rasterRect: undefined,
-          rasterDataUri: undefined,
-          rasterGlyphs: undefined,
-        })),
-      };
+      const shifted = textShadowCopy(el, sh.x, sh.y, shadowFillColor);
+      if (shifted.textSegments != null && shifted.textSegments.length === 0) continue;
       let body = renderOneText(ctx, { el: shifted, idPrefix: ctx.idPrefix, clipId: cid, decorationId: `${cid}-sh${si}`, fillColor: shadowFillColor, affineMatrix }, emit);
       if (sh.blur > 0) {
         const stdDev = sh.blur / 2;
@@ -1203,21 +1227,8 @@ function paintText(
           const sh = segShadows[si];
           if (sh.inset) continue;
           const segShadowFill = colorStr(parseColor(sh.color) ?? { r: 0, g: 0, b: 0, a: 0 });
-          const shiftedSeg: TextSegment = {
-            ...seg,
-            x: seg.x + sh.x,
-            y: seg.y + sh.y,
-            xOffsets: seg.xOffsets?.map((v) => v + sh.x),
-            rasterRect: undefined,
-            rasterDataUri: undefined,
-            rasterGlyphs: undefined,
-            // Drop the pseudoBox on the shadow copy — backgrounds and
-            // borders aren't part of the text shadow (they paint
-            // separately via the pseudoBox path). Otherwise we'd stamp
-            // a recolored gradient-pill rect underneath the shadow.
-            pseudoBox: undefined,
-          };
-          let segBody = wrapAffineTextPaint(affineMatrix, renderMultiSegmentText({ el, idPrefix: ctx.idPrefix, clipId: cid, decorationId: `${cid}-sh${segIdx}_${si}`, fillColor: segShadowFill, emitPseudoBoxBgLayers: emit }, [shiftedSeg]));
+          const shadowEl = textShadowCopy({ ...el, textSegments: [{ ...seg, textShadow: undefined }] }, sh.x, sh.y, segShadowFill);
+          let segBody = wrapAffineTextPaint(affineMatrix, renderMultiSegmentText({ el: shadowEl, idPrefix: ctx.idPrefix, clipId: cid, decorationId: `${cid}-sh${segIdx}_${si}`, fillColor: segShadowFill, emitPseudoBoxBgLayers: emit }, shadowEl.textSegments!));
           if (sh.blur > 0) {
             const stdDev = sh.blur / 2;
             const fid = ctx.nextClipId("tssh");
-- 
2.43.0


From b062639ed05f59bda32a7e555e3c940674620de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 73/95] fix: an svg overlay's delay and endAt reach the
 composed frame

---
 src/cli/animate.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 26e3239..a699447 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3735,6 +3735,8 @@ function resolveSvgOverlays(overlays: OverlayInput[] | undefined, configDir: str
         x: ov.x, y: ov.y, width: ov.width, height: ov.height,
         animId,
         enter: ov.enter, exit: ov.exit,
+        ...(ov.delay != null ? { delay: ov.delay } : {}),
+        ...(ov.endAt != null ? { endAt: ov.endAt } : {}),
       });
     } else {
       // typing / tap / blink already match their runtime overlay shapes verbatim.
-- 
2.43.0


From dd99f095b6616fd0641a756f9a4897b7d8e14759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 74/95] fix: a config variable is one the config declares

---
 src/cli/animate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index a699447..64af136 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3260,7 +3260,7 @@ export function interpolateConfigVars(cfg: AnimateConfig): AnimateConfig {
   const sub = (s: string): string =>
     s.replace(/\$\$\{|\$\{([^}]*)\}/g, (match, name: string | undefined) => {
       if (match === "$${") return "${";
-      if (name == null || !(name in vars)) throw new Error(`animate: unknown variable \${${name ?? ""}}`);
+      if (name == null || !Object.hasOwn(vars, name)) throw new Error(`animate: unknown variable \${${name ?? ""}}`);
       return vars[name];
     });
   const walk = (v: unknown): unknown => {
-- 
2.43.0


From 535647f513a21a84aabb00d18a5c2594f8a2e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 75/95] fix: the revealed frame captures the same element as
 its resting frame

---
 src/cli/animate.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 64af136..36ca927 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3315,6 +3315,7 @@ export function expandHoverReveal(cfg: AnimateConfig, log: (msg: string) => void
     // ORIGINAL frame's transition (the transition OUT of the pair) if any.
     const hoverFrame: AnimateFrameCfg = {
       continue: true,
+      ...(f.selector != null ? { selector: f.selector } : {}),
       duration: hr.hoverMs ?? f.duration,
       forceState: [{ selector: hr.selector, states: hr.states ?? ["hover"] }],
       ...(origTransition != null ? { transition: origTransition } : {}),
-- 
2.43.0


From 5146776d857454287ce2b57d91361eb1bd960819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 76/95] fix: overlay anchors of per-region states find their
 element, and leave no trace in it

---
 src/cli/animate.ts | 80 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 14 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 36ca927..2e68dd9 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -2135,19 +2135,54 @@ async function buildStatesRunContent(
   const anchorSelectors = [...new Set(
     stateCfgs.flatMap((st) => (st.overlays ?? []).map((ov) => ov.anchor?.selector).filter((sel): sel is string => sel != null)),
   )];
-  const anchorAnimId = (sel: string): string => `f${i}ova${anchorSelectors.indexOf(sel)}`;
+  // One element can answer several anchor selectors (`#cta` and `.primary`) or be
+  // a region root, while the stamp is a single attribute: each matched element
+  // carries the list of every selector it answers, and region roots keep their
+  // own id. Which element is a selector's FIRST match depends on the assembled
+  // state, so every match is stamped and the tree walk below picks the first; a
+  // selector no element of the state answers is reported there.
+  const anchorPrefix = `f${i}ova`;
+  const regionAnchors: Array<Map<string, number[]>> = [];
   const stampAnchorTargets = async (): Promise<void> => {
-    for (const sel of anchorSelectors) {
-      const matched = await page.evaluate(
-        (args: { selector: string; animId: string }) => {
-          const el = document.querySelector(args.selector);
-          if (el instanceof HTMLElement) { el.dataset.domotionAnim = args.animId; return true; }
-          return false;
-        },
-        { selector: sel, animId: anchorAnimId(sel) },
-      );
-      if (!matched) throw new Error(`animate: frames[${i}] overlay anchor selector "${sel}" matched no element`);
-    }
+    const hits = await page.evaluate(
+      (args: { selectors: string[]; prefix: string; regionIds: string[] }) => {
+        const found = new Map<HTMLElement, number[]>();
+        args.selectors.forEach((sel, k) => {
+          document.querySelectorAll(sel).forEach((el) => {
+            if (el instanceof HTMLElement) found.set(el, [...(found.get(el) ?? []), k]);
+          });
+        });
+        // A previous round's stamps describe that round.
+        document.querySelectorAll(`[data-domotion-anim^="${args.prefix}"]`).forEach((el) => el.removeAttribute("data-domotion-anim"));
+        const roots: Array<[string, number[]]> = [];
+        found.forEach((idx, el) => {
+          const own = el.dataset.domotionAnim ?? "";
+          if (args.regionIds.includes(own)) roots.push([own, idx]);
+          else el.dataset.domotionAnim = args.prefix + idx.join("-");
+        });
+        return roots;
+      },
+      { selectors: anchorSelectors, prefix: anchorPrefix, regionIds },
+    );
+    regionAnchors.push(new Map(hits));
+  };
+  /** The stamp of the first element of state `s`'s assembled tree that answers `sel`. */
+  const anchorAnimId = (sel: string, s: number, tree: CapturedElement[]): string | undefined => {
+    const k = anchorSelectors.indexOf(sel);
+    const answers = (id: string): boolean => {
+      if (id.startsWith(anchorPrefix)) return id.slice(anchorPrefix.length).split("-").includes(String(k));
+      const r = regionIds.indexOf(id);
+      return r >= 0 && regionAnchors[plan!.sourceRound[s][regionNames[r]]]?.get(id)?.includes(k) === true;
+    };
+    const walk = (els: CapturedElement[]): string | undefined => {
+      for (const el of els) {
+        if (el.animId != null && answers(el.animId)) return el.animId;
+        const inner = walk(el.children);
+        if (inner != null) return inner;
+      }
+      return undefined;
+    };
+    return walk(tree);
   };
 
   const states: CompressedRunState[] = [];
@@ -2175,13 +2210,20 @@ async function buildStatesRunContent(
       const authored = stateCfgs[s].overlays;
       if (authored != null && authored.length > 0) {
         const resolved = resolveAnchoredOverlaysInTree(
-          assembled[s], authored, (sel) => anchorAnimId(sel),
+          assembled[s], authored, (sel) => anchorAnimId(sel, s, assembled[s]),
           (kind) => `animate: frames[${i}].states[${s}] ${kind} overlay`,
         );
         if (resolved != null) bucketStateOverlays(s, resolved);
       }
     }
-    for (let s = 0; s < stateCfgs.length; s++) states.push({ tree: assembled[s], holdMs: stateCfgs[s].duration });
+    // The anchor stamps have served; an element that keeps one would paint as an
+    // animated element, a stacking context of its own.
+    const unstamped = (el: CapturedElement): CapturedElement => ({
+      ...el,
+      ...(el.animId?.startsWith(anchorPrefix) === true ? { animId: undefined } : {}),
+      children: el.children.map(unstamped),
+    });
+    for (let s = 0; s < stateCfgs.length; s++) states.push({ tree: assembled[s].map(unstamped), holdMs: stateCfgs[s].duration });
   } else {
     log(`  states: capturing ${stateCfgs.length} editing state${stateCfgs.length === 1 ? "" : "s"} for the compressed run…`);
     for (let j = 0; j < stateCfgs.length; j++) {
@@ -2194,6 +2236,16 @@ async function buildStatesRunContent(
       await collectStateOverlays(j);
     }
   }
+  // Region and anchor stamps describe this run; a following frame that continues
+  // on this page must not capture them as animated elements of its own.
+  if (regionIds.length > 0 || anchorSelectors.length > 0) {
+    await page.evaluate((args: { ids: string[]; prefix: string }) => {
+      document.querySelectorAll<HTMLElement>("[data-domotion-anim]").forEach((el) => {
+        const id = el.dataset.domotionAnim ?? "";
+        if (args.ids.includes(id) || id.startsWith(args.prefix)) el.removeAttribute("data-domotion-anim");
+      });
+    }, { ids: regionIds, prefix: anchorPrefix });
+  }
   const runOverlays = overlayBuckets.flat();
   const rootBg = states[0].tree[0]?.styles?.rootBgComputed;
   // The size-regression guard (below) can only fall back to the uncompressed
-- 
2.43.0


From 4e6d22a7e4b924ff61ecee8d10679036c6b6fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 77/95] fix: a declared region's root paints as the page had it

---
 src/animation/compressed-run.ts | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 9603683..dad1d9d 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -517,10 +517,27 @@ function regionKeyOf(el: CapturedElement): string {
  * ancestor or side-by-side column subdivides it further, which is strictly
  * finer and never merges two declared regions.
  */
-function declaredRegionKeyOf(el: CapturedElement, regionRootIds: ReadonlySet<string>): string | null {
-  if (regionRootIds.size === 0) return null;
-  const id = el.animId;
-  return id != null && regionRootIds.has(id) ? `D${id}` : null;
+function declaredRegionKeyOf(el: CapturedElement, declaredRoots: ReadonlyMap<CapturedElement, string>): string | null {
+  const id = declaredRoots.get(el);
+  return id != null ? `D${id}` : null;
+}
+
+/** Take the declared region roots' stamps off a state's tree, returning who they
+ *  were on. The stamp is an address: left in place it would read as an animated
+ *  element, which paints as a stacking context of its own, and naming a region
+ *  must not change what is painted. */
+function liftRegionStamps(tree: CapturedElement[], regionRootIds: ReadonlySet<string>): { tree: CapturedElement[]; roots: Map<CapturedElement, string> } {
+  const roots = new Map<CapturedElement, string>();
+  if (regionRootIds.size === 0) return { tree, roots };
+  const lift = (el: CapturedElement): CapturedElement => {
+    const copy: CapturedElement = { ...el, children: el.children.map(lift) };
+    if (copy.animId != null && regionRootIds.has(copy.animId)) {
+      roots.set(copy, copy.animId);
+      copy.animId = undefined;
+    }
+    return copy;
+  };
+  return { tree: tree.map(lift), roots };
 }
 
 /**
@@ -595,7 +612,8 @@ interface ExtractedState {
  *  `demoted` are region keys whose text must be forced INELIGIBLE — the same
  *  path an occluded / undecorated-ineligible element takes, so `strip` keeps it
  *  in the chrome tree. Empty (the default) demotes nothing. */
-function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string>, demoted: ReadonlySet<string>): ExtractedState {
+function extractState(stamped: CapturedElement[], regionRootIds: ReadonlySet<string>, demoted: ReadonlySet<string>): ExtractedState {
+  const { tree, roots: declaredRoots } = liftRegionStamps(stamped, regionRootIds);
   // Pass 1: the renderer's REAL paint order — the same
   // `gatherStackingContextChildren` / `sortChildrenByPaintOrder` traversal
   // `elementTreeToSvg` emits with (stacking contexts, z-index buckets,
@@ -652,7 +670,7 @@ function extractState(tree: CapturedElement[], regionRootIds: ReadonlySet<string
   const walk = (el: CapturedElement, ctx: AncestorCtx, isRegionRoot: boolean): void => {
     // An explicitly declared region root wins over auto-detection here, and
     // (unlike the clipping rule) claims the element's own text too.
-    const declared = declaredRegionKeyOf(el, regionRootIds);
+    const declared = declaredRegionKeyOf(el, declaredRoots);
     if (declared != null) ctx = { ...ctx, region: declared };
     else if (isRegionRoot) ctx = { ...ctx, region: regionKeyOf(el) };
     // A demoted region's text stays in the chrome tree (the ineligible path):
-- 
2.43.0


From 5d3dab40551082e63b34a2054aaca073af84037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:35 +0000
Subject: [PATCH 78/95] fix: an element off screen in one state of a run shows
 in the states where it is on screen

---
 src/animation/compressed-run.ts | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index dad1d9d..a215e3e 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -1214,12 +1214,18 @@ function nodeFromEl(el: CapturedElement, s: number): UnionNode {
   };
 }
 
-function extendDeep(n: UnionNode, s: number): void {
+/** Pairing ignores the viewBox cull, which is per state: a record culled in
+ *  one state and on screen in another must not keep the first state's hiding. */
+function keepPainted(n: UnionNode, next: CapturedElement): void {
+  if (n.el.displayNone === true && next.displayNone !== true) n.el = { ...n.el, displayNone: undefined };
+}
+
+function extendDeep(n: UnionNode, next: CapturedElement, s: number): void {
+  keepPainted(n, next);
+  const kids = n.children.filter((c) => lastWindow(c).end === s);
   const w = lastWindow(n);
   if (w.end === s) w.end = s + 1;
-  for (const c of n.children) {
-    if (lastWindow(c).end === s) extendDeep(c, s);
-  }
+  kids.forEach((c, k) => extendDeep(c, next.children[k], s));
 }
 
 /** Deep key over a union node's ENTIRE subtree — every child, all variants.
@@ -1241,11 +1247,12 @@ function fullDeepKey(n: UnionNode): string {
  *  the reopen of an A→B→A blink. Every descendant reappears together (the
  *  subtree matched deep-equal), so the window bookkeeping is uniform: extend
  *  when contiguous, otherwise push a new window. */
-function reopenDeep(n: UnionNode, s: number): void {
+function reopenDeep(n: UnionNode, next: CapturedElement, s: number): void {
+  keepPainted(n, next);
   const w = lastWindow(n);
   if (w.end === s) w.end = s + 1;
   else if (w.end < s) n.windows.push({ start: s, end: s + 1 });
-  for (const c of n.children) reopenDeep(c, s);
+  n.children.forEach((c, k) => reopenDeep(c, next.children[k], s));
 }
 
 /** Merge one state's element list into the union level. Order-preserving LCS
@@ -1298,8 +1305,9 @@ function mergeLevel(unionList: UnionNode[], nextEls: CapturedElement[], s: numbe
   for (let b = 0; b < m; b++) {
     const hit = matchedNext.get(b);
     if (hit != null) {
-      if (hit.deep) extendDeep(hit.node, s);
+      if (hit.deep) extendDeep(hit.node, nextEls[b], s);
       else {
+        keepPainted(hit.node, nextEls[b]);
         lastWindow(hit.node).end = s + 1;
         mergeLevel(hit.node.children, nextEls[b].children, s);
       }
@@ -1353,7 +1361,7 @@ function mergeLevel(unionList: UnionNode[], nextEls: CapturedElement[], s: numbe
       }
       if (reopenAt >= 0) {
         const node = unionList[reopenAt];
-        reopenDeep(node, s);
+        reopenDeep(node, nextEls[b], s);
         reopened.add(node);
         cursor = reopenAt + 1;
         continue;
-- 
2.43.0


From 94de4abe8eb5e5cfdc78a33cfc5d762c6690c247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 79/95] fix: a script literal in a served page cannot end its
 script element

---
 src/review/server.ts    | 4 ++--
 src/scrubber/server.ts  | 3 ++-
 src/utils/escapeHtml.ts | 6 ++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/review/server.ts b/src/review/server.ts
index ed5f2bf..29d5ad0 100644
--- a/src/review/server.ts
+++ b/src/review/server.ts
@@ -28,7 +28,7 @@ import { startLocalServer, sendBuffer } from "../utils/local-server.js";
 import { readFileSync, existsSync } from "node:fs";
 import { extname } from "node:path";
 import { REVIEW_CLIENT_JS } from "./client.bundle.generated.js";
-import { escapeHtml } from "../utils/escapeHtml.js";
+import { escapeHtml, scriptJson } from "../utils/escapeHtml.js";
 
 export interface ReviewServerInputs {
   /** Absolute path to the PNG of what Chromium painted. */
@@ -116,7 +116,7 @@ function renderShell(label: string): string {
   <textarea id="issue-text" readonly></textarea>
   <p class="hint">After clicking <em>File at github.com</em>, paste the text above into the issue body and attach <code>expected.png</code> and <code>actual.svg</code>.</p>
 </div>
-<script>window.__SVG_REVIEW__ = { label: ${JSON.stringify(label)} };</script>
+<script>window.__SVG_REVIEW__ = { label: ${scriptJson(label)} };</script>
 <script src="/client.js"></script>
 </body></html>`;
 }
diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2f0f0cb..7db98f1 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -21,6 +21,7 @@
 
 import type { IncomingMessage, ServerResponse } from "node:http";
 import { startLocalServer } from "../utils/local-server.js";
+import { scriptJson } from "../utils/escapeHtml.js";
 import { spawn } from "node:child_process";
 import { mkdtempSync, readFileSync, rmSync, writeFileSync } from "node:fs";
 import { tmpdir } from "node:os";
@@ -372,7 +373,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
     return run;
   };
 
-  const bootstrap = JSON.stringify({
+  const bootstrap = scriptJson({
     svg: inputs.initialSvg ?? null,
     name: inputs.initialName ?? null,
     path: inputs.initialPath ?? null,
diff --git a/src/utils/escapeHtml.ts b/src/utils/escapeHtml.ts
index 67d0572..55601c7 100644
--- a/src/utils/escapeHtml.ts
+++ b/src/utils/escapeHtml.ts
@@ -14,3 +14,9 @@ export function escapeAttr(str: string): string {
     .replace(/</g, "&lt;")
     .replace(/>/g, "&gt;");
 }
+
+/** A value as a script literal that is safe inside an HTML `<script>` element:
+ *  no `</script>` or `<!--` in the data can end or re-open the element. */
+export function scriptJson(value: unknown): string {
+  return JSON.stringify(value).replace(/</g, "\\u003c");
+}
-- 
2.43.0


From f850cd367c2adc86f6f2fba8d655aecf0b384812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 80/95] fix: a scrubber page that failed to open is opened
 again

---
 src/scrubber/server.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 7db98f1..84a1b4e 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -351,7 +351,10 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const getPage = async (): Promise<Page> => {
     if (browser == null) browser = await inputs.launchBrowser();
     if (pagePromise == null) {
-      pagePromise = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      const opening = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      pagePromise = opening;
+      // A page that never opened must not be kept for the next request.
+      opening.catch(() => { if (pagePromise === opening) pagePromise = null; });
     }
     return pagePromise;
   };
-- 
2.43.0


From f1caa3527f157a7d48a33a081336bb580e4381e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 81/95] fix: a crop is measured from the corner of the viewBox

---
 src/scrubber/crop.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scrubber/crop.ts b/src/scrubber/crop.ts
index 5bcb9cf..ca09e41 100644
--- a/src/scrubber/crop.ts
+++ b/src/scrubber/crop.ts
@@ -37,7 +37,7 @@ export function clampCrop(crop: CropRect, frameW: number, frameH: number): CropR
 
 /**
  * Rewrite the outermost `<svg>` element so its viewport is `crop` (in user
- * units). Sets `viewBox="x y w h"` and `width="w" height="h"` and forces
+ * units from the frame's top-left corner). Sets `viewBox="x y w h"` and `width="w" height="h"` and forces
  * `overflow:hidden` (defensive — the outer SVG already clips, but a stray author
  * `overflow:visible` on the root would leak cropped content). Other attributes
  * are preserved. Throws if no `<svg>` open tag is found.
@@ -69,7 +69,9 @@ export function cropSvgViewBox(svg: string, crop: CropRect): string {
     attrs += ` style="overflow:hidden"`;
   }
 
-  const x = num(crop.x), y = num(crop.y), w = num(crop.w), h = num(crop.h);
+  // The rect is measured from the frame's corner, which a viewBox may put anywhere.
+  const [ox = 0, oy = 0] = (/\sviewBox\s*=\s*["']([^"']*)["']/i.exec(openTag)?.[1] ?? "").trim().split(/[\s,]+/).map(Number);
+  const x = num(ox + crop.x), y = num(oy + crop.y), w = num(crop.w), h = num(crop.h);
   const rebuilt = `<svg${attrs} viewBox="${x} ${y} ${w} ${h}" width="${w}" height="${h}">`;
   return svg.slice(0, m.index) + rebuilt + svg.slice(m.index + openTag.length);
 }
-- 
2.43.0


From 63934060cb42fda04187bafacc3098d96797b53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 82/95] fix: a trimmed window keeps held tracks, custom
 durations, own delays and inline animations

---
 src/scrubber/trim.ts | 90 +++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 34 deletions(-)

diff --git a/src/scrubber/trim.ts b/src/scrubber/trim.ts
index 7918897..02370b3 100644
--- a/src/scrubber/trim.ts
+++ b/src/scrubber/trim.ts
@@ -70,11 +70,20 @@ function parseClockMs(v: string): number | null {
 
 const NUM_RE = /-?\d*\.?\d+(?:[eE][+-]?\d+)?/g;
 
+/** Hex colours spelled as `rgb(…)`, so that they interpolate by channel. */
+function hexToRgb(v: string): string {
+  return v.replace(/#([0-9a-f]{6}|[0-9a-f]{3})(?![0-9a-f])/gi, (_, h: string) => {
+    const full = h.length === 3 ? [...h].map((c) => c + c).join("") : h;
+    return `rgb(${[0, 2, 4].map((i) => parseInt(full.slice(i, i + 2), 16)).join(",")})`;
+  });
+}
+
 /** Linear-interpolate two values that share an identical non-numeric skeleton
  *  (`translateX(10px)`↔`translateX(20px)`, `0`↔`1`, `0,0`↔`40,10`). Returns null
  *  when skeletons differ (discrete value like `visible`↔`hidden`) so the caller
  *  SNAPS. */
-function lerpValue(a: string, b: string, t: number): string | null {
+function lerpValue(from: string, to: string, t: number): string | null {
+  const a = hexToRgb(from), b = hexToRgb(to);
   const an = a.match(NUM_RE);
   const bn = b.match(NUM_RE);
   if (a.replace(NUM_RE, "\0") !== b.replace(NUM_RE, "\0") || an == null || bn == null || an.length !== bn.length) return null;
@@ -96,7 +105,7 @@ function valueAt(stops: Stop[], f: number, discrete: boolean): string {
   if (f >= stops[stops.length - 1].at) return stops[stops.length - 1].value;
   let lo = stops[0], hi = stops[stops.length - 1];
   for (let i = 0; i < stops.length - 1; i++) {
-    if (stops[i].at <= f && f <= stops[i + 1].at) { lo = stops[i]; hi = stops[i + 1]; break; }
+    if (stops[i].at <= f && f < stops[i + 1].at) { lo = stops[i]; hi = stops[i + 1]; break; }
   }
   if (discrete) return lo.value; // hold the value of the stop at-or-before f
   const span = hi.at - lo.at;
@@ -145,36 +154,39 @@ function parseKeyframes(body: string): CssFrame[] {
   return frames;
 }
 
-/** Decls are discrete (snap) when the property is non-interpolatable; we detect
- *  this lazily per-property in `cssStateAt` via the lerp-skeleton check. */
-function cssStateAt(frames: CssFrame[], f: number): Map<string, string> {
+const TIMING = "animation-timing-function";
+
+/** Animated state at fraction `f`. A property is interpolated between the stops
+ *  that declare IT; under `step-end` (the whole animation's or the governing
+ *  stop's) it holds, and non-interpolatable values snap. */
+function cssStateAt(frames: CssFrame[], f: number, stepEnd: boolean): Map<string, string> {
   if (frames.length === 0) return new Map();
-  if (f <= frames[0].at) return new Map(frames[0].decls);
-  if (f >= frames[frames.length - 1].at) return new Map(frames[frames.length - 1].decls);
-  let lo = frames[0], hi = frames[frames.length - 1];
-  for (let i = 0; i < frames.length - 1; i++) {
-    if (frames[i].at <= f && f <= frames[i + 1].at) { lo = frames[i]; hi = frames[i + 1]; break; }
-  }
-  const t = hi.at > lo.at ? (f - lo.at) / (hi.at - lo.at) : 0;
   const out = new Map<string, string>();
-  for (const p of new Set([...lo.decls.keys(), ...hi.decls.keys()])) {
-    const a = lo.decls.get(p), b = hi.decls.get(p);
-    if (a != null && b != null) out.set(p, lerpValue(a, b, t) ?? a); // lerp, else snap to lo
-    else out.set(p, (a ?? b)!);
+  for (const p of new Set(frames.flatMap((fr) => [...fr.decls.keys()]))) {
+    if (p === TIMING) continue;
+    const own = frames.filter((fr) => fr.decls.has(p));
+    const lo = [...own].reverse().find((fr) => fr.at <= f);
+    const held = stepEnd || lo?.decls.get(TIMING) === "step-end";
+    out.set(p, valueAt(own.map((fr) => ({ at: fr.at, value: fr.decls.get(p)! })), f, held));
   }
+  const timing = [...frames].reverse().find((fr) => fr.at <= f)?.decls.get(TIMING);
+  if (timing != null) out.set(TIMING, timing);
   return out;
 }
 
-function sliceKeyframesBody(body: string, f0: number, f1: number): string {
+function sliceKeyframesBody(body: string, f0: number, f1: number, stepEnd: boolean): string {
   const frames = parseKeyframes(body);
   if (frames.length === 0) return body;
   const span = f1 - f0;
   if (!(span > 0)) return body;
-  const stops: { at: number; decls: Map<string, string> }[] = [{ at: 0, decls: cssStateAt(frames, f0) }];
+  const stops: { at: number; decls: Map<string, string> }[] = [{ at: 0, decls: cssStateAt(frames, f0, stepEnd) }];
   for (const fr of frames) if (fr.at > f0 && fr.at < f1) stops.push({ at: (fr.at - f0) / span, decls: fr.decls });
-  stops.push({ at: 1, decls: cssStateAt(frames, f1) });
+  stops.push({ at: 1, decls: cssStateAt(frames, f1, stepEnd) });
   const byPct = new Map<number, Map<string, string>>();
-  for (const s of stops) byPct.set(Math.round(s.at * 1e5) / 1e3, s.decls);
+  for (const s of stops) {
+    const pct = Math.round(s.at * 1e5) / 1e3;
+    byPct.set(pct, new Map([...(byPct.get(pct) ?? []), ...s.decls]));
+  }
   return [...byPct.entries()].sort((a, b) => a[0] - b[0])
     .map(([pct, decls]) => `${pct}% { ${[...decls.entries()].map(([k, v]) => `${k}: ${v}`).join("; ")} }`)
     .join(" ");
@@ -197,14 +209,19 @@ function splitTopLevel(s: string): string[] {
 
 const TIME_RE = /(-?\d*\.?\d+)(ms|s)\b/;
 
-interface CssAnim { seg: string; name: string | null; durMs: number | null; infinite: boolean }
+interface CssAnim { seg: string; name: string | null; durMs: number | null; delayMs: number; infinite: boolean; stepEnd: boolean }
+
+/** An `animation` shorthand, in a style sheet or in a `style` attribute. */
+const ANIM_RE = /animation\s*:\s*([^;}"']+)/g;
+
+const toMs = (value: string, unit: string): number => (unit === "ms" ? parseFloat(value) : parseFloat(value) * 1000);
 
 function parseCssAnims(value: string, keyframeNames: Set<string>): CssAnim[] {
   return splitTopLevel(value).map((seg) => {
     const name = [...keyframeNames].find((n) => new RegExp(`(^|\\s)${n}(\\s|$)`).test(seg.trim())) ?? null;
-    const tm = TIME_RE.exec(seg);
-    const durMs = tm ? (tm[2] === "ms" ? parseFloat(tm[1]) : parseFloat(tm[1]) * 1000) : null;
-    return { seg, name, durMs, infinite: /\binfinite\b/.test(seg) };
+    // The first time of a shorthand is the duration, the second the delay.
+    const [dur, delay] = [...seg.matchAll(new RegExp(TIME_RE, "g"))].map((m) => toMs(m[1], m[2]));
+    return { seg, name, durMs: dur ?? null, delayMs: delay ?? 0, infinite: /\binfinite\b/.test(seg), stepEnd: /(^|\s)step-end(\s|$)/.test(seg) };
   });
 }
 
@@ -221,7 +238,6 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   const f0 = t0 / period;
   const f1 = Math.min(1, t1 / period);
   const isPeriod = (durMs: number | null): boolean => durMs != null && Math.abs(durMs - period) <= Math.max(4, period * 0.02);
-  const negT0 = secs(-t0);
   const winSec = secs(win);
 
   // Collect @keyframes names.
@@ -233,11 +249,16 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   // clean all-period-spanning rule). Mixed rules fall back to re-basing.
   const sliceNames = new Set<string>();
   const rebaseRuleNames = new Set<string>(); // names whose rule is re-based (don't slice)
-  for (const m of svgMarkup.matchAll(/animation\s*:\s*([^;}]+)/g)) {
-    const anims = parseCssAnims(m[1], keyframeNames);
-    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite);
+  const easedNames = new Set<string>(); // names some rule plays other than `step-end`
+  // Durations may be a custom property (`var(--scene-dur)`).
+  const customProps = new Map([...svgMarkup.matchAll(/(--[\w-]+)\s*:\s*([^;}"']+)/g)].map((m) => [m[1], m[2].trim()]));
+  const resolveVars = (value: string): string => value.replace(/var\(\s*(--[\w-]+)\s*\)/g, (v, name: string) => customProps.get(name) ?? v);
+  for (const m of svgMarkup.matchAll(ANIM_RE)) {
+    const anims = parseCssAnims(resolveVars(m[1]), keyframeNames);
+    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite && a.delayMs === 0);
     for (const a of anims) {
       if (a.name == null) continue;
+      if (!a.stepEnd) easedNames.add(a.name);
       if (allPeriod) sliceNames.add(a.name); else rebaseRuleNames.add(a.name);
     }
   }
@@ -248,23 +269,24 @@ export function trimAnimatedSvg(svgMarkup: string, startMs: number, endMs: numbe
   // 1. Slice the @keyframes bodies that belong to period-spanning rules.
   out = out.replace(/@keyframes\s+([A-Za-z_][\w-]*)\s*\{((?:[^{}]|\{[^{}]*\})*)\}/g, (full, name: string, body: string) => {
     if (!sliceNames.has(name)) return full;
-    return `@keyframes ${name} {${sliceKeyframesBody(body, f0, f1)}}`;
+    return `@keyframes ${name} {${sliceKeyframesBody(body, f0, f1, !easedNames.has(name))}}`;
   });
 
   // 2. Rewrite each `animation` shorthand.
-  out = out.replace(/animation\s*:\s*([^;}]+)/g, (full, value: string) => {
+  out = out.replace(ANIM_RE, (full, written: string) => {
+    const value = resolveVars(written);
     const anims = parseCssAnims(value, keyframeNames);
-    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite);
+    const allPeriod = anims.length > 0 && anims.every((a) => isPeriod(a.durMs) && a.infinite && a.delayMs === 0);
     if (allPeriod) {
       // Sliced: set each segment's duration to the window length; no delay.
       result.slicedCss++;
       const newVal = splitTopLevel(value).map((seg) => seg.replace(TIME_RE, winSec)).join(",");
       return `animation:${newVal}`;
     }
-    // Re-based: shift the whole rule back by t0 (single delay applies to all
-    // animations in the list) and hold pre/post states.
+    // Re-based: shift every animation of the rule back by t0 and hold pre/post states.
     result.shiftedCss++;
-    return `${full};animation-delay:${negT0};animation-fill-mode:both`;
+    const delays = anims.map((a) => secs(a.delayMs - t0));
+    return `${full};animation-delay:${new Set(delays).size === 1 ? delays[0] : delays.join(",")};animation-fill-mode:both`;
   });
 
   // 3. SMIL: slice period-spanning elements; window-loop / drop the rest.
-- 
2.43.0


From 90c75e93c04f07a7c81d557e84beeb9bdcae3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:21 +0000
Subject: [PATCH 83/95] fix: preserved tabs paint nothing

---
 src/render/text-to-path.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/render/text-to-path.ts b/src/render/text-to-path.ts
index 4def9f1..3349c1c 100644
--- a/src/render/text-to-path.ts
+++ b/src/render/text-to-path.ts
@@ -3300,6 +3300,12 @@ export function renderTextAsPath(
   };
   const esc = escAttr;
 
+  // Preserved tabs and line breaks advance the pen but paint nothing: Blink
+  // shapes them with the space glyph of the run's own font. Do the same, so a
+  // run of nothing else (an indent) does not fall back to a font that has a
+  // visible glyph for the control character.
+  text = text.replace(/[\t\n\r]/g, " ");
+
   // DM-1026 / DM-1126: synthesize the dotted circle Chrome's HarfBuzz inserts
   // before an orphaned complex-shaper combining mark — for UNCOVERED marks
   // (no-font Brahmic blocks, detected here) and for CAPTURE-flagged COVERED marks
-- 
2.43.0


From 50c7ceca6e2defcc6489168c45bac1781125244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 84/95] fix: a storyboard's svg scene keeps its own size and
 loses its prolog when nested

---
 src/animation/svg-meta.ts | 21 +++++++++++++++++++++
 src/cli/storyboard.ts     |  8 ++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/animation/svg-meta.ts b/src/animation/svg-meta.ts
index 86bb1e0..16ee172 100644
--- a/src/animation/svg-meta.ts
+++ b/src/animation/svg-meta.ts
@@ -24,6 +24,27 @@ export function parseSvgIntrinsicSize(svg: string): { w: number; h: number } | n
   return null;
 }
 
+/** `svg` from its root element on: a document's prolog is not allowed inside another. */
+export function withoutSvgProlog(svg: string): string {
+  return svg.replace(/^(?:\s|<\?[\s\S]*?\?>|<!--[\s\S]*?-->|<!doctype[^>]*>)*/i, "");
+}
+
+/**
+ * `svg` with its root's `width` / `height` set to `size`, for nesting in a larger
+ * document: a root without them (or with `width="100%"`) would take the size of
+ * whatever it is nested in.
+ * `svg` starts at its root (see {@link withoutSvgProlog}).
+ */
+export function withRootSize(svg: string, size: { w: number; h: number }): string {
+  return svg.replace(
+    /^\s*<svg\b((?:[^<>"']|"[^"]*"|'[^']*')*)>/i,
+    (_, attrs: string) => {
+      const rest = attrs.replace(/\s(?:width|height)\s*=\s*(?:"[^"]*"|'[^']*')/gi, "");
+      return `<svg width="${size.w}" height="${size.h}"${rest}>`;
+    },
+  );
+}
+
 /**
  * An animated SVG's own play length (ms): from its `--scene-dur` custom property
  * when present (full-mode casts / `animate` output), else the longest `animation:`
diff --git a/src/cli/storyboard.ts b/src/cli/storyboard.ts
index b6503a0..f88a6a2 100644
--- a/src/cli/storyboard.ts
+++ b/src/cli/storyboard.ts
@@ -79,7 +79,7 @@ import {
   cursorEventSchema,
   cursorStyleSchema,
 } from "./animate.js";
-import { parseSvgIntrinsicSize, detectAnimationPeriodMs } from "../animation/svg-meta.js";
+import { parseSvgIntrinsicSize, withRootSize, withoutSvgProlog, detectAnimationPeriodMs } from "../animation/svg-meta.js";
 import { cliFail, loadInputIntoPage, applyReadyWaits } from "./common.js";
 
 /** iOS UA used when a `capture` scene sets `mobile: true` (mirrors the capture path). */
@@ -314,9 +314,9 @@ async function renderScene(
     return captureSceneToSvg(browser, scene.capture, configDir, canvasW, canvasH, log);
   }
   // svg source: a pre-rendered (static or animated) SVG.
-  const svg = readFileSync(resolve(configDir, scene.svg!), "utf8");
+  const svg = withoutSvgProlog(readFileSync(resolve(configDir, scene.svg!), "utf8"));
   const size = parseSvgIntrinsicSize(svg) ?? { w: canvasW, h: canvasH };
-  return { svg, w: size.w, h: size.h, periodMs: scene.period ?? detectAnimationPeriodMs(svg) };
+  return { svg: withRootSize(svg, size), w: size.w, h: size.h, periodMs: scene.period ?? detectAnimationPeriodMs(svg) };
 }
 
 /** A short human label for the scene's source (for progress logs). */
@@ -418,7 +418,7 @@ export async function composeStoryboardConfig(
     // DM-1553: a `deferFonts` (cast, shared-builder) scene keeps its `dmfN` font
     // families un-prefixed so they resolve against the single top-level block.
     let content = namespaceEmbeddedAnimatedSvg(r.svg, `sb${i}_`, { namespaceFonts: r.deferFonts !== true });
-    content = content.replace(/^<\?xml[^>]*\?>\s*/, "");
+    content = withoutSvgProlog(content);
     content = placeEmbeddedFrame(content, r.w, r.h, cfg.width, cfg.height, scene.fit ?? "center");
 
     // DM-1554: per-scene overlays render on top of the scene (canvas coords). A
-- 
2.43.0


From aa9832bd2683f9a41f19cf15ba8159a5da94ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 85/95] fix: an svg overlay keeps its viewBox and scales to its
 box; its names no longer collide

---
 src/cli/animate.ts | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 2e68dd9..7358e27 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -75,7 +75,7 @@ import { compressEmbeddedFontsToWoff2, optimizeSvg } from "../post-processing/in
 import { frameAdvanceMs } from "../animation/frame-timeline.js";
 import { resolveMotionPreset, resolveEasingPreset } from "../animation/motion-presets.js";
 import { namespaceEmbeddedAnimatedSvg } from "../animation/embed-namespace.js";
-import { prefixSvgIds, prefixSvgClasses } from "../render/svg-inline.js";
+import { parseSvgIntrinsicSize, withRootSize, withoutSvgProlog } from "../animation/svg-meta.js";
 import { escapeAttr } from "../utils/escapeHtml.js";
 import { castToAnimatedSvg } from "../terminal/index.js";
 import { transitionSchema } from "../animation/transition-schema.js";
@@ -3781,10 +3781,9 @@ function resolveSvgOverlays(overlays: OverlayInput[] | undefined, configDir: str
       if (!existsSync(srcPath)) throw new Error(`animate: svg overlay file not found: ${srcPath}`);
       const fileText = readFileSync(srcPath, "utf8");
       const animId = `s${svgIdx++}`;
-      const namespaced = namespaceSvgIds(fileText, `f${frameIdx}o${animId}-`);
       out.push({
         kind: "svg",
-        innerSvg: namespaced,
+        innerSvg: overlaySvg(fileText, `f${frameIdx}o${animId}-`, ov.width, ov.height),
         x: ov.x, y: ov.y, width: ov.width, height: ov.height,
         animId,
         enter: ov.enter, exit: ov.exit,
@@ -3800,25 +3799,17 @@ function resolveSvgOverlays(overlays: OverlayInput[] | undefined, configDir: str
 }
 
 /**
- * Strip the outer `<svg>` wrapper (if present) from an SVG file's contents,
- * then prefix every `id="..."`, `href="#..."`, and `xlink:href="#..."` with
- * the given prefix so multiple inlined SVGs can coexist in one document
- * without id collisions.
+ * An SVG file as an overlay: its ids, classes, `@keyframes` and embedded fonts
+ * get `prefix`, so it can coexist with the frames and with other overlays, and
+ * its root takes the overlay's size, the drawing scaling to it by its viewBox.
  */
-function namespaceSvgIds(svg: string, prefix: string): string {
-  // Strip XML decl + outer <svg ...> wrapper, then namespace ids/refs via the
-  // shared prefixer (DM-1588 — same regexes back the native SVG-image inliner).
-  let inner = svg;
-  inner = inner.replace(/<\?xml[^>]*\?>/, "");
-  inner = inner.replace(/<svg\b[^>]*>/, "");
-  inner = inner.replace(/<\/svg>\s*$/, "");
-  inner = prefixSvgIds(inner, prefix);
-  // DM-1595: also namespace CSS class names when the overlay SVG carries a
-  // `<style>` block, so two svg overlays that both define e.g. `.cls-1` can't
-  // cross-contaminate. Gated on `<style>` presence → no-op (byte-identical) for
-  // the common presentation-attribute overlay.
-  if (/<style[\s>]/i.test(inner)) inner = prefixSvgClasses(inner, prefix);
-  return inner;
+function overlaySvg(fileText: string, prefix: string, width: number, height: number): string {
+  const svg = namespaceEmbeddedAnimatedSvg(withoutSvgProlog(fileText), prefix);
+  const size = parseSvgIntrinsicSize(svg);
+  const sized = withRootSize(svg, { w: width, h: height });
+  return size == null || /^<svg\b(?:[^<>"']|"[^"]*"|'[^']*')*\sviewBox\s*=/i.test(sized)
+    ? sized
+    : sized.replace(/^<svg\b/i, `<svg viewBox="0 0 ${size.w} ${size.h}"`);
 }
 
 function resolveFrameInput(input: string, configDir: string): string {
-- 
2.43.0


From fee416f67b45d8e5efe27f47b27a4874443bcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 86/95] fix: aria references and begin/end events of an
 embedded document follow its renamed ids

---
 src/animation/embed-namespace.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/animation/embed-namespace.ts b/src/animation/embed-namespace.ts
index 7b92e02..5b0cec3 100644
--- a/src/animation/embed-namespace.ts
+++ b/src/animation/embed-namespace.ts
@@ -128,6 +128,12 @@ export function namespaceEmbeddedAnimatedSvg(svg: string, token: string, opts: N
         return value.startsWith("#") && ids.has(value.slice(1)) ? `#${token}${value.slice(1)}` : value;
       case "font-family":
         return namespaceFonts && /^(?:[A-Za-z][\w-]*_)?dmf\d+$/.test(value) ? token + value : value;
+      case "aria-activedescendant": case "aria-controls": case "aria-describedby": case "aria-details":
+      case "aria-errormessage": case "aria-flowto": case "aria-labelledby": case "aria-owns":
+        return value.split(/\s+/).map((t) => (ids.has(t) ? token + t : t)).join(" ");
+      case "begin": case "end":
+        return value.replace(/(^|;)(\s*)([\w:-]+)(?=\.)/g, (full, sep: string, ws: string, id: string) =>
+          ids.has(id) ? `${sep}${ws}${token}${id}` : full);
       case "style": return value.split(";").map(rewriteDecl).join(";");
       default: return value.includes("url(") ? rewriteDecl(value) : value;
     }
-- 
2.43.0


From f72cadb79c48b199cf35ecb3ecb363ff0429a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:22 +0000
Subject: [PATCH 87/95] fix: a nested film cut short by the loop's end kept
 heading for later stops

---
 src/animation/embed-timeline.ts | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index d9fe8fe..68dd91d 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -44,6 +44,7 @@
  */
 
 import { fmt, clampPct } from "./svg-meta.js";
+import { interpolateCssValue, resolveEasing } from "./easing.js";
 
 /**
  * How an embedded layer's own timeline maps onto its container's master loop
@@ -166,6 +167,32 @@ function heldDecls(stops: { pct: number; decls: string }[], timing: string): str
   return changed ? [...held].map(([p, v]) => `${p}: ${v};`).join(" ") : last.decls;
 }
 
+/** A hex colour spelled with decimal channels, which can be interpolated. */
+function decimalColors(value: string): string {
+  return value.replace(/#(?:[0-9a-f]{6}|[0-9a-f]{3})\b/gi, (hex) => {
+    const digits = hex.length === 4 ? [...hex.slice(1)].map((d) => d + d) : [hex.slice(1, 3), hex.slice(3, 5), hex.slice(5)];
+    return `rgb(${digits.map((d) => parseInt(d, 16)).join(", ")})`;
+  });
+}
+
+/** What a track shows `pct` of the way through its period. */
+function declsAt(stops: { pct: number; decls: string }[], pct: number, timing: string): string {
+  const ordered = stops.map((s) => ({ pct: s.pct, decls: parseDecls(s.decls) })).sort((a, b) => a.pct - b.pct);
+  const shown: string[] = [];
+  for (const prop of new Set(ordered.flatMap((s) => [...s.decls.keys()]))) {
+    if (prop === "animation-timing-function") continue;
+    const setting = ordered.filter((s) => s.decls.has(prop));
+    const prev = setting.filter((s) => s.pct <= pct).pop() ?? setting[0];
+    const next = setting.find((s) => s.pct > pct) ?? prev;
+    const from = prev.decls.get(prop)!;
+    const to = next.decls.get(prop)!;
+    const easing = prev.decls.get("animation-timing-function") ?? timing;
+    const t = from === to || easing.startsWith("step") ? 0 : resolveEasing(easing)((pct - prev.pct) / (next.pct - prev.pct));
+    shown.push(`${prop}: ${t === 0 ? from : interpolateCssValue(decimalColors(from), decimalColors(to), t)};`);
+  }
+  return shown.join(" ");
+}
+
 /**
  * Remap a single `@keyframes` block's stop percentages into the sub-window and
  * add the leading / trailing hold stops. `inner` is the block body (the stops),
@@ -186,6 +213,14 @@ function remapKeyframeBody(inner: string, offsetPct: number, scale: number, timi
   // Precise enough to keep the animator's hairline (0.001%) switches apart when
   // they are squeezed into a short window; two stops at one offset would merge.
   const at = (pct: number): string => `${Number(clampPct(offsetPct + pct * scale).toFixed(9))}%`;
+  // The loop may end before the content does. Squeezing the stops it never
+  // reaches into 100% would make the ones before head for the wrong value, so
+  // the track stops at what it shows when the loop ends.
+  const cut = (100 - offsetPct) / scale;
+  if (cut < 100 - 1e-6) {
+    const kept = stops.filter((s) => s.pct < cut).map((s) => `${at(s.pct)} { ${s.decls} }`);
+    return `0% { ${first.decls} } ${kept.join(" ")} 100% { ${declsAt(stops, cut, timing)} }`;
+  }
   const remapped = stops.map((s) => `${at(s.pct)} { ${s.pct >= 100 ? held : s.decls} }`);
   return `0% { ${first.decls} } ${remapped.join(" ")} 100% { ${held} }`;
 }
-- 
2.43.0


From a020b33cde6891efb864d4d55ffb59cf98454925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 88/95] fix: template avatars and kinetic text split between
 characters, not between the halves of one

---
 src/templates/builtin/chat.ts         | 3 ++-
 src/templates/builtin/kinetic-text.ts | 6 ++++--
 src/templates/builtin/quote.ts        | 3 ++-
 src/templates/builtin/subscribe.ts    | 3 ++-
 src/utils/firstGrapheme.ts            | 8 ++++++++
 5 files changed, 18 insertions(+), 5 deletions(-)
 create mode 100644 src/utils/firstGrapheme.ts

diff --git a/src/templates/builtin/chat.ts b/src/templates/builtin/chat.ts
index d35c445..d357b41 100644
--- a/src/templates/builtin/chat.ts
+++ b/src/templates/builtin/chat.ts
@@ -16,6 +16,7 @@ import { safeAreaPadding, type SafeInset } from "../formats.js";
 import type { Anims } from "../../cli/animate.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
 import { escapeHtml } from "../../utils/escapeHtml.js";
+import { firstGrapheme } from "../../utils/firstGrapheme.js";
 
 /** One message, after parsing. `me` = right-aligned accent bubble. */
 export interface ChatMessage { from: "me" | "them"; text: string; }
@@ -94,7 +95,7 @@ export function buildChatHtml(p: ChatParams, safeInset?: SafeInset): string {
   const padding = safeAreaPadding({ top: 0, right: 0, bottom: 0, left: 0 }, safeInset);
   const header = p.title != null && p.title !== ""
     ? `<div class="ct-head">
-         <div class="ct-avatar">${escapeHtml(p.title.trim().charAt(0).toUpperCase() || "•")}</div>
+         <div class="ct-avatar">${escapeHtml(firstGrapheme(p.title.trim()).toUpperCase() || "•")}</div>
          <div class="ct-name">${escapeHtml(p.title)}</div>
        </div>`
     : "";
diff --git a/src/templates/builtin/kinetic-text.ts b/src/templates/builtin/kinetic-text.ts
index 08e2c73..aaa5ffb 100644
--- a/src/templates/builtin/kinetic-text.ts
+++ b/src/templates/builtin/kinetic-text.ts
@@ -27,6 +27,7 @@ import type { Template, TemplateOutput, TemplateRenderContext } from "../types.j
 import { brandParams, brandBackground, type Brand } from "../brand.js";
 import { safeAreaPadding, type SafeInset } from "../formats.js";
 import { escapeHtml } from "../../utils/escapeHtml.js";
+import { firstGrapheme } from "../../utils/firstGrapheme.js";
 
 const VARIANTS = ["rise", "slide", "fade", "clip", "pop"] as const;
 export type KineticVariant = (typeof VARIANTS)[number];
@@ -164,8 +165,9 @@ export function parseStyledText(text: string): StyledChar[][] {
       }
       // A stray `<` that isn't a tag → literal character.
     }
-    lines[lines.length - 1].push({ ch: c, style: styleForStack(stack) });
-    i++;
+    const ch = /\s/.test(c) ? c : firstGrapheme(normalized.slice(i));
+    lines[lines.length - 1].push({ ch, style: styleForStack(stack) });
+    i += ch.length;
   }
   return lines;
 }
diff --git a/src/templates/builtin/quote.ts b/src/templates/builtin/quote.ts
index b55ad83..71d90db 100644
--- a/src/templates/builtin/quote.ts
+++ b/src/templates/builtin/quote.ts
@@ -13,6 +13,7 @@ import { runSingleFrameGenerator } from "../run-single-frame.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
 import { brandParams, brandBackground, type Brand } from "../brand.js";
 import { escapeHtml } from "../../utils/escapeHtml.js";
+import { firstGrapheme } from "../../utils/firstGrapheme.js";
 import { CARD_FONT_STACK, cardHeadCss, cardScaleFactor, fs, resolveCardTheme, staggeredReveal, revealEndMs } from "./text-card-common.js";
 import type { SafeInset } from "../formats.js";
 
@@ -45,7 +46,7 @@ function blank(v: string | undefined): string | undefined {
 export function buildQuoteHtml(p: QuoteParams, safeInset?: SafeInset): string {
   const t = resolveCardTheme(p.theme, { background: blank(p.background), text: p.textColor });
   const avatarColor = p.avatarColor ?? p.accent;
-  const initial = (blank(p.avatarInitial) ?? blank(p.author)?.[0] ?? "").toUpperCase();
+  const initial = (blank(p.avatarInitial) ?? firstGrapheme(blank(p.author) ?? "")).toUpperCase();
   const hasAttribution = blank(p.author) != null || blank(p.role) != null;
   const attribution = hasAttribution
     ? `<div class="q-attr">
diff --git a/src/templates/builtin/subscribe.ts b/src/templates/builtin/subscribe.ts
index 9019736..e317b13 100644
--- a/src/templates/builtin/subscribe.ts
+++ b/src/templates/builtin/subscribe.ts
@@ -15,6 +15,7 @@ import { safeAreaPadding, type SafeInset } from "../formats.js";
 import type { Anims } from "../../cli/animate.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
 import { escapeHtml } from "../../utils/escapeHtml.js";
+import { firstGrapheme } from "../../utils/firstGrapheme.js";
 
 export const subscribeParamsSchema = z.object({
   name: z.string().default("Domotion").describe("Channel / profile name."),
@@ -45,7 +46,7 @@ export function buildSubscribeHtml(p: SubscribeParams, safeInset?: SafeInset): s
   const cardBg = dark ? "#1f2430" : "#ffffff";
   const nameColor = dark ? "#f3f4f6" : "#0f172a";
   const subColor = dark ? "#9aa4b2" : "#64748b";
-  const initial = (p.avatarText ?? p.name.trim().charAt(0)).toUpperCase() || "•";
+  const initial = (p.avatarText ?? firstGrapheme(p.name.trim())).toUpperCase() || "•";
   const click = p.clickAfterMs > 0;
   const bellStroke = dark ? "#e5e7eb" : "#334155";
   const bellSvg = (fill: string, stroke: string) =>
diff --git a/src/utils/firstGrapheme.ts b/src/utils/firstGrapheme.ts
new file mode 100644
index 0000000..669bac3
--- /dev/null
+++ b/src/utils/firstGrapheme.ts
@@ -0,0 +1,8 @@
+const segmenter = new Intl.Segmenter(undefined, { granularity: "grapheme" });
+
+/** The first user-perceived character of `text` ("" when it has none). Indexing a
+ *  string yields a UTF-16 code unit, which is only half of an emoji. */
+export function firstGrapheme(text: string): string {
+  for (const { segment } of segmenter.segment(text)) return segment;
+  return "";
+}
-- 
2.43.0


From 5687e2e134347a75000d3a008337b8c041208550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 89/95] fix: subscribe animates the bell only when it is shown,
 and lasts past its pop

---
 src/templates/builtin/subscribe.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/templates/builtin/subscribe.ts b/src/templates/builtin/subscribe.ts
index e317b13..e2b9a1a 100644
--- a/src/templates/builtin/subscribe.ts
+++ b/src/templates/builtin/subscribe.ts
@@ -159,6 +159,8 @@ export function buildSubscribeAnimations(p: SubscribeParams): Anims {
       { selector: ".sub-state-cta", property: "opacity", from: "1", to: "0", duration: CLICK_FADE_MS, delay: p.clickAfterMs, easing: "ease-out" },
       { selector: ".sub-state-done", property: "opacity", from: "0", to: "1", duration: CLICK_FADE_MS, delay: p.clickAfterMs, easing: "ease-out" },
       { selector: ".sub-done", property: "scale", from: "0.84", to: "1", duration: 360, delay: p.clickAfterMs, easing: "cubic-bezier(0.34,1.56,0.64,1)", transformOrigin: "center" },
+    );
+    if (p.showBell) anims.push(
       { selector: ".sub-bell-off", property: "opacity", from: "1", to: "0", duration: CLICK_FADE_MS, delay: p.clickAfterMs, easing: "ease-out" },
       { selector: ".sub-bell-on", property: "opacity", from: "0", to: "1", duration: CLICK_FADE_MS, delay: p.clickAfterMs, easing: "ease-out" },
     );
@@ -168,7 +170,7 @@ export function buildSubscribeAnimations(p: SubscribeParams): Anims {
 
 /** Total play time: the pop (or the simulated click, if later), then hold. */
 export function subscribeDurationMs(p: SubscribeParams): number {
-  const settled = p.clickAfterMs > 0 ? p.clickAfterMs + CLICK_FADE_MS : p.popMs;
+  const settled = p.clickAfterMs > 0 ? Math.max(p.popMs, p.clickAfterMs + CLICK_FADE_MS) : p.popMs;
   return settled + p.holdMs;
 }
 
-- 
2.43.0


From a010485f1037effae5a88da00a335b1380504301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 90/95] fix: pie and donut charts draw a single full slice

---
 src/templates/builtin/chart.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/templates/builtin/chart.ts b/src/templates/builtin/chart.ts
index 21b6853..37a988e 100644
--- a/src/templates/builtin/chart.ts
+++ b/src/templates/builtin/chart.ts
@@ -91,6 +91,11 @@ function polar(cx: number, cy: number, r: number, deg: number): { x: number; y:
 
 /** SVG path for a pie wedge (`ri = 0`) or a donut ring segment, clockwise. */
 function arcPath(cx: number, cy: number, r: number, ri: number, start: number, end: number): string {
+  // An arc whose ends coincide draws nothing: a full circle takes two of them.
+  if (end - start > 359.99) {
+    const mid = (start + end) / 2;
+    return `${arcPath(cx, cy, r, ri, start, mid)} ${arcPath(cx, cy, r, ri, mid, end)}`;
+  }
   const large = end - start > 180 ? 1 : 0;
   const o1 = polar(cx, cy, r, start), o2 = polar(cx, cy, r, end);
   if (ri <= 0) return `M ${cx} ${cy} L ${o1.x} ${o1.y} A ${r} ${r} 0 ${large} 1 ${o2.x} ${o2.y} Z`;
-- 
2.43.0


From 0c3ef33bc8d8da2ebd13ae0be4f33fd87364c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 91/95] fix: wave background repeats exactly over its pan

---
 src/templates/builtin/background-loop.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/templates/builtin/background-loop.ts b/src/templates/builtin/background-loop.ts
index 75e28aa..2868c33 100644
--- a/src/templates/builtin/background-loop.ts
+++ b/src/templates/builtin/background-loop.ts
@@ -445,11 +445,13 @@ interface WaveLayer {
 /** Build a filled sine-wave `<path>` spanning `width` px at vertical `baseline`,
  *  amplitude `amp`, wavelength `period`, filled down to `floor`. */
 function sineWavePath(width: number, floor: number, baseline: number, amp: number, period: number): string {
-  const step = Math.max(6, Math.round(period / 24));
+  // Whole steps per period, so every period is sampled at the same phases and the
+  // polyline itself (not just the sine) repeats across the tile.
+  const step = period / Math.max(4, Math.min(24, Math.floor(period / 6)));
   const pts: string[] = [];
-  for (let x = 0; x <= width; x += step) {
-    const y = baseline - amp * Math.sin((2 * Math.PI * x) / period);
-    pts.push(`${x} ${y.toFixed(1)}`);
+  for (let k = 0; k * step < width - step / 2; k++) {
+    const y = baseline - amp * Math.sin((2 * Math.PI * k * step) / period);
+    pts.push(`${Number((k * step).toFixed(3))} ${y.toFixed(1)}`);
   }
   // Pin the final sample exactly at `width` so the tile closes cleanly.
   const lastY = (baseline - amp * Math.sin((2 * Math.PI * width) / period)).toFixed(1);
@@ -472,7 +474,7 @@ export function planWaves(p: BackgroundLoopParams): WaveLayer[] {
   for (let i = 0; i < n; i++) {
     const t = n === 1 ? 0.5 : i / (n - 1); // 0 = back, 1 = front
     const humps = 2 + Math.round(rnd() * 2) + Math.floor(t * 2); // front waves are busier
-    const period = Math.round(p.width / humps);
+    const period = p.width / humps; // exact: a whole number of periods per canvas width
     const amp = Math.round((0.035 + t * 0.05 + rnd() * 0.02) * p.height);
     const baseline = Math.round((0.34 + t * 0.4) * p.height);
     layers.push({
-- 
2.43.0


From b67737b067fa91ce44af5bc5850479b44e6dbda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 92/95] fix: a counter that crosses zero rolls digit against
 digit

---
 src/templates/builtin/odometer.ts | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/templates/builtin/odometer.ts b/src/templates/builtin/odometer.ts
index 72d0f82..0394636 100644
--- a/src/templates/builtin/odometer.ts
+++ b/src/templates/builtin/odometer.ts
@@ -126,19 +126,24 @@ export function planOdometer(from: number, to: number, opts: OdometerFormat = {}
   const up = to >= from;
   // Scaled integers to count how often each decimal place ticks (spin amount).
   const scale = 10 ** decimals;
-  const scaledFrom = Math.round(Math.abs(from) * scale);
-  const scaledTo = Math.round(Math.abs(to) * scale);
+  const scaledFrom = Math.round(from * scale);
+  const scaledTo = Math.round(to * scale);
+  // The resting sign is a static column of its own: the digits align without it,
+  // so a count across zero still rolls digit against digit.
+  const fromDigits = fromText.replace(/^-/, "");
+  const toDigits = toText.replace(/^-/, "");
   // Assign a place index (from the right, over DIGIT columns only) to each column.
-  const digitPlaces = placeIndices(toText);
+  const digitPlaces = placeIndices(toDigits);
   const columns: OdometerColumn[] = [];
-  for (let i = 0; i < toText.length; i++) {
-    const fc = fromText[i] ?? toText[i];
-    const tc = toText[i];
+  if (toDigits !== toText) columns.push({ type: "static", char: "-" });
+  for (let i = 0; i < toDigits.length; i++) {
+    const fc = fromDigits[i] ?? toDigits[i];
+    const tc = toDigits[i];
     if (tc >= "0" && tc <= "9" && fc >= "0" && fc <= "9") {
       const startDigit = fc.charCodeAt(0) - 48;
       const endDigit = tc.charCodeAt(0) - 48;
       const place = digitPlaces[i];
-      const trueInc = Math.abs(Math.floor(scaledTo / 10 ** place) - Math.floor(scaledFrom / 10 ** place));
+      const trueInc = Math.abs(Math.trunc(scaledTo / 10 ** place) - Math.trunc(scaledFrom / 10 ** place));
       columns.push({ type: "digit", startDigit, endDigit, up, steps: stepsFor(startDigit, endDigit, up, trueInc) });
     } else {
       columns.push({ type: "static", char: tc });
-- 
2.43.0


From 3dd524ebf8ff33ec870074d4eb6fa9904d46a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 93/95] fix: a timer that loses its hours keeps its clock
 columns

---
 src/templates/builtin/odometer.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/templates/builtin/odometer.ts b/src/templates/builtin/odometer.ts
index 0394636..fd32793 100644
--- a/src/templates/builtin/odometer.ts
+++ b/src/templates/builtin/odometer.ts
@@ -187,8 +187,8 @@ export function planTimer(fromSeconds: number, toSeconds: number): OdometerPlan
   const rawFrom = formatTimer(fromSeconds);
   const rawTo = formatTimer(toSeconds);
   const len = Math.max(rawFrom.length, rawTo.length);
-  const fromText = rawFrom.padStart(len, "0");
-  const toText = rawTo.padStart(len, "0");
+  const fromText = padClock(rawFrom, len);
+  const toText = padClock(rawTo, len);
   const up = toSeconds >= fromSeconds;
   const totalDelta = Math.abs(Math.floor(toSeconds) - Math.floor(fromSeconds));
   const columns: OdometerColumn[] = [];
@@ -210,6 +210,16 @@ export function planTimer(fromSeconds: number, toSeconds: number): OdometerPlan
   return { toText, fromText, columns };
 }
 
+/** Left-pad clock text to `len` characters with zero fields ("0:10" → "0:00:10"). */
+function padClock(text: string, len: number): string {
+  let out = text;
+  while (out.length < len) {
+    const field = out.search(/:|$/); // digits in the leading field
+    out = (field < 2 || out.split(":").length === 3 ? "0" : ":") + out;
+  }
+  return out;
+}
+
 /** Options for {@link buildOdometerMarkup}. */
 export interface OdometerMarkupOptions {
   /** Unique-per-document class prefix (default "od"). */
-- 
2.43.0


From 2c13a2060148604418bb90e19205a7868310e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:27 +0000
Subject: [PATCH 94/95] fix: compare: labels reach the picture as written, the
 divider keeps time with the wipe, asset paths are escaped

---
 src/templates/builtin/compare.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/templates/builtin/compare.ts b/src/templates/builtin/compare.ts
index b292de4..d81c0ff 100644
--- a/src/templates/builtin/compare.ts
+++ b/src/templates/builtin/compare.ts
@@ -14,6 +14,7 @@
 
 import { writeFileSync } from "node:fs";
 import { join, resolve, extname } from "node:path";
+import { pathToFileURL } from "node:url";
 import { z } from "zod";
 import { composeAnimatedLayers, type CompositeLayerAnimation } from "../../animation/index.js";
 import type { Template, TemplateOutput, TemplateRenderContext } from "../types.js";
@@ -62,7 +63,7 @@ async function visualToSvg(ctx: TemplateRenderContext, src: string, w: number, h
     const html = `<!doctype html><html><head><meta charset="utf-8"><style>
       *{margin:0}html,body{width:${w}px;height:${h}px;overflow:hidden}
       img{width:100%;height:100%;object-fit:cover;display:block}
-    </style></head><body><img src="file://${resolveSrc(src)}"></body></html>`;
+    </style></head><body><img src="${escapeHtml(pathToFileURL(resolveSrc(src)).href)}"></body></html>`;
     const path = join(ctx.workDir, `compare-${slot}.html`);
     writeFileSync(path, html);
     const out = await ctx.captureToSvg({ input: path, width: w, height: h });
@@ -130,7 +131,7 @@ export function compareOverlayMarkup(p: CompareParams, safeInset?: SafeInset): s
       const endPct = Math.min(100, (p.durationMs / p.holdMs) * 100);
       const s0 = (endPct * 0.42).toFixed(2); // before starts fading
       const s1 = (endPct * 0.58).toFixed(2); // after fully in
-      const dur = (p.holdMs / 1000).toFixed(2);
+      const dur = p.holdMs / 1000;
       // A vertical flip: "Before" slides up + out while "After" rises up + in, so
       // at the crossover they sit at different heights instead of ghosting over
       // each other. (translateY is a pure shift — no transform-box/origin needed.)
@@ -160,7 +161,7 @@ function dividerMarkup(p: CompareParams): string {
   const name = "cmp-div";
   // The divider eases identically to the clip reveal (REVEAL_EASING) so its line
   // stays locked to the clip boundary; `animation-fill-mode: both` holds the end.
-  const anim = `${name} ${(holdMs / 1000).toFixed(2)}s ${REVEAL_EASING} infinite`;
+  const anim = `${name} ${holdMs / 1000}s ${REVEAL_EASING} infinite`;
   if (horizontal) {
     const fromX = p.direction === "right" ? 0 : W;
     const toX = p.direction === "right" ? W : 0;
@@ -196,7 +197,7 @@ export const compareTemplate: Template<CompareParams> = {
     );
     // Inject the label badges + (slide) divider just before the closing tag.
     const overlay = compareOverlayMarkup({ ...params, holdMs }, ctx.safeInset);
-    const svg = overlay === "" ? composed.svg : composed.svg.replace(/<\/svg>\s*$/, `${overlay}</svg>`);
+    const svg = overlay === "" ? composed.svg : composed.svg.replace(/<\/svg>\s*$/, () => `${overlay}</svg>`);
     return { svg, width, height, durationMs: holdMs };
   },
 };
-- 
2.43.0


From 92ad740e0dae887c98c569ba0e827a9a5e82784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:41 +0000
Subject: [PATCH 95/95] fix: a fragment in an image address hid its file type

---
 src/capture/embed.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capture/embed.ts b/src/capture/embed.ts
index 0036ac9..bb7d271 100644
--- a/src/capture/embed.ts
+++ b/src/capture/embed.ts
@@ -330,7 +330,7 @@ export async function embedRemoteImages(
         const ctype = res.headers.get("content-type");
         const mime = (ctype != null && ctype.startsWith("image/"))
           ? ctype.split(";")[0].trim()
-          : (mimeFromExtension(url.split("?")[0]) ?? "application/octet-stream");
+          : (mimeFromExtension(url.split(/[?#]/)[0]) ?? "application/octet-stream");
         _dataUriCache.set(url, `data:${mime};base64,${buf.toString("base64")}`);
         return;
       } catch (err) {
-- 
2.43.0

