# One entry per property; gen.py turns this list into properties.jsonl, MANIFEST.json and DESIGN.md's per-property section.
P = []
def prop(id, title, statement, over, q, why, files, mech, decide, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, decide=decide, note=note, observe=observe))

prop("S01", "Scroll-pattern language: exact grammar, order-preserving, total parser",
  "Every well-formed scroll pattern parses to exactly the list of scrolls, pauses, loops, easings and conditions its text spells, with whitespace and number spelling immaterial; every ill-formed pattern, and no well-formed one, is rejected with a parse error that points inside the text. The parser always returns or raises that error, whatever string it is given.",
  ["inputs"], "every pattern string: all nestings, units, anchors, easings, until-clauses, and every ill-formed string",
  "The unit tests pin a few dozen strings; acceptance and meaning must agree with the grammar for every string.",
  ["src/scroll/pattern.ts", "docs/37-scroll-pattern-grammar.md"], [("lexer and recursive-descent parser", "src/scroll/pattern.ts parseScrollPattern")],
  "Three searches: random pattern trees printed with random spelling must parse back to themselves (round trip); token lists with random edits are judged by an independently written recogniser of the documented grammar (differential accept/reject); arbitrary strings must give a value or a parse error with an in-range position.",
  "Random search; the independent recogniser is trusted to be the documented grammar.")
prop("S02", "Scroll execution: captures the positions and durations the pattern asks for",
  "Running a pattern against a page visits exactly the scroll positions its instructions denote (clamped to the page, end of page resolved when reached, loops repeated until their count or condition), spends the written durations and pauses on the composed timeline, and a capture shows the page at the position it is placed at.",
  ["programs", "configurations"], "every pattern and every page extent, viewport and scroller",
  "Tests run a handful of patterns on one page size; the semantics must hold for every program over every page.",
  ["src/scroll/executor.ts", "src/scroll/composer.ts"], [("pattern interpreter", "src/scroll/executor.ts executeScrollPattern"), ("timeline composition", "src/scroll/composer.ts composeScrollSvg")],
  "A simulated page (no browser) is scrolled by the real executor and by an independently written reference interpreter; capture positions, times, durations and the composed loop length must agree.",
  "The browser is a simulated page object; capture itself is a stub that records the page state.")
prop("S03", "Scroll playback shows the page position of every instant of the timeline",
  "Playing the composed scroll animation shows, at every instant of the loop, page content displaced exactly as the segment timeline (with its easings and pauses) says; everything inside the viewport at that instant is visible, fixed elements do not move, and stuck elements stay at their stuck position.",
  ["inputs", "histories"], "every sequence of scroll segments, directions, easings, pauses, and every instant of playback",
  "Tests compare keyframe text of a few timelines; visibility must hold at every instant of every timeline, including ones that scroll back.",
  ["src/scroll/composer.ts", "src/scroll/sticky.ts"], [("segment keyframes and visibility windows", "src/scroll/composer.ts composeScrollSvg"), ("fixed / sticky overlays", "src/scroll/hoist-fixed.ts, src/scroll/sticky.ts")],
  "Random timelines are composed and the output document is played by an independent CSS-animation evaluator at random instants; displacement and visibility are compared with the timeline's arithmetic.",
  "The CSS evaluator (lib/css.ts) covers the subset of CSS animation the output uses; offsets rounded in the output give the tolerance.")
prop("A01", "Animated SVG timeline: one frame per hold, faithful hand-offs, held last frame",
  "In a generated animation each frame is shown alone, fully opaque and at rest, for its whole duration, in order and in every loop; between two frames the configured transition runs over exactly its duration (fading, moving, scaling or revealing both layers as configured); and the last frame holds to the end of the loop unless a looping fade is asked for.",
  ["configurations", "histories"], "every sequence of frames, durations, transition families and their parameters, loop settings, at every instant of every loop",
  "Tests assert text fragments for chosen pairs of transitions; the guarantee quantifies over every chain of transitions and every instant.",
  ["src/animation/animator.ts", "src/animation/transition-schema.ts", "docs/08-animation-model.md", "docs/88-transition-effect-expansion.md"],
  [("timeline and per-frame keyframes", "src/animation/animator.ts generateAnimatedSvg"), ("transition normalisation", "src/animation/transition-schema.ts normalizeTransition")],
  "Random frame sequences over all transition families; the document is parsed and played by an independent CSS-animation evaluator, probing opacity, transform and clip at points inside every hold, hand-off and the closing hold, against a reference derived from the configuration. Also checks unique ids, resolved references and no cross-frame id capture.",
  "Offsets are printed to 0.01 %, so instants within that distance of a boundary are not probed. The slide-then-fade mix keeps the behaviour docs/88 fixes (outgoing slides, incoming fades in place).")
prop("T01", "Terminal recordings: read and recorded exactly, foreign lines tolerated",
  "Reading an asciinema v2 recording keeps exactly its output and resize events, in order with their times and text, ignoring every other line and a line cut off at the end, and refuses with a cast error whatever lacks a version-2 header with a numeric size. Recording a live session and reading it back gives the chunks the program wrote at the times it wrote them, with keystrokes forwarded and the input left as it was.",
  ["inputs", "histories"], "every recording text and every live session's chunks, keystrokes and timing",
  "Tests read a few short recordings; any byte content, foreign line or cut-off point may occur.",
  ["src/terminal/cast.ts", "src/terminal/pty.ts"], [("recording reader", "src/terminal/cast.ts parseCast"), ("live recorder", "src/terminal/pty.ts recordPtySession")],
  "Random event lists are printed as recordings (blank, foreign and truncated lines mixed in) and must read back to themselves; damaged headers and arbitrary strings must give a value or a cast error; a fake pseudo-terminal drives the live recorder and its recording is read back.",
  "The pseudo-terminal is a stand-in with a controlled clock.")
prop("T02", "Terminal screen: text, colours, styles and cursor as the program set them",
  "After any output the terminal screen holds, cell by cell, the characters, theme-resolved colours and text styles the output's control sequences denote, with the cursor on the screen and shown or hidden as last requested. How the output was cut into chunks does not matter.",
  ["inputs", "histories"], "every output stream, every way of cutting it into chunks, every theme and screen size",
  "Tests write a few literal strings in one chunk; recordings cut output anywhere, including inside control sequences.",
  ["src/terminal/emulator.ts", "src/terminal/theme.ts"], [("screen snapshot", "src/terminal/emulator.ts TerminalEmulator"), ("theme resolution", "src/terminal/theme.ts resolveThemeSpec, xterm256ToHex")],
  "Random streams are fed to the emulator and to an independent screen model (cells compared one by one); streams over a wider sequence set are written whole and in random pieces and must give the same screen and cursor.",
  "The model covers text, wide and combining characters, SGR, line feeds, addressing, erasing and cursor visibility; other sequences are covered by chunk invariance. Inverse video is not rendered by design (docs/67) and is outside the property.")
prop("T03", "Terminal frames: settled screens, their hold times, and faithful markup",
  "A recording plays as the sequence of screens at which its output paused, each held for its pause clamped to the configured limits, identical successive screens joined, resizes applied at their times and the final screen always present. The markup of a screen shows exactly its visible characters, colours and styles, whatever characters they are.",
  ["histories", "configurations"], "every event timing, every timing option, every screen content",
  "Tests replay a few fixed sessions; the selection depends on every gap and every repeated screen.",
  ["src/terminal/render.ts", "docs/67-terminal-capture.md"], [("frame selection", "src/terminal/render.ts buildFrames"), ("row markup", "src/terminal/render.ts rowInnerHtml, gridToHtml")],
  "Random sessions are replayed by the frame builder and by a reference written from the documentation; durations, screens and cursors must agree. Screens are rendered to markup and read back by an independent reader.",
  "Screen contents come from the emulator (decided by T02).")
prop("T04", "Terminal playback shows the recorded screen at every settled instant",
  "Playing the composed terminal animation, in either mode, shows at every instant outside a scroll glide exactly the rows the terminal showed then, each at its row position, over the recording's whole play length and in every loop; the canvas fits the largest terminal size. The caret shows only on lines being typed at, never while the program hides it, at the recorded cell in the requested shape.",
  ["histories", "configurations"], "every recording, composition mode, caret shape and instant of playback",
  "Line identities, moves and visibility windows depend on the whole history of screens; tests look at the markup of a few.",
  ["src/terminal/incremental.ts", "src/terminal/index.ts"], [("line pool and keyframes", "src/terminal/incremental.ts trackLines, composeIncrementalTermSvg"), ("full-frame composition", "src/terminal/index.ts castToTermFrames")],
  "Random sessions are composed in both modes with a stand-in browser that paints every distinct row in its own colour; the emitted document is played by an independent evaluator and every row of probed instants is compared with the reference frames, and the caret with the reference cursor.",
  "The browser is a stand-in; text drawing itself is decided elsewhere. Instants within 130 ms before a frame change (the scroll glide) are excluded in incremental mode.")
prop("A02", "Animations inside a frame take the authored values at every instant",
  "An element animated inside a frame holds its start value until the frame's start plus the delay, follows the authored easing (overshoot and springs included) over the duration, then holds the end value, in every loop; fused tracks run together or on their own windows and compose into one transform, and repeating animations cycle and alternate on their own clock. The animated element's whole rendered subtree moves and fades with it, and an animated opacity replaces the captured one.",
  ["configurations", "histories"], "every set of animations, easings, windows, fused tracks, repeats, subtree shapes and every instant of every loop",
  "Tests assert fragments of a few keyframe blocks; the played value at an instant depends on scene length, easing and the other tracks.",
  ["src/animation/animator.ts", "src/animation/easing.ts", "src/tree-ops/annotate-animated-properties.ts", "src/render/stacking.ts", "docs/08-animation-model.md", "docs/44-repeating-animations.md"],
  [("keyframe emission", "src/animation/animator.ts buildIntraFrameAnimationCss"), ("baked easing", "src/animation/easing.ts resolveEasing, interpolateCssValue"), ("subtree kept inside the animated group", "src/render/stacking.ts establishesStackingContext, compositesFixedDescendants")],
  "Random scenes with random animations are generated and played by the independent evaluator; every animated property is compared with the value the definition gives (transform lists composed as matrices). Random captured subtrees (positioned, fixed, floated, flex, z-indexed, nested animations) are rendered and played, and every descendant's opacity and displacement compared.",
  "Baked own-clock tracks are allowed 2.5-9 % progress error (piecewise linear). steps() easings on own-clock tracks are out of scope: the code documents a linear fallback. Subtrees whose animated element also clips overflow are not generated.")
prop("A03", "Culling never hides an element that is in view",
  "With out-of-view culling applied, an element any part of whose painted box lies in the viewBox at an instant when its frame is held is not hidden at that instant, in any loop, whatever animations carry it or its ancestors. A static subtree lying wholly to one side of the viewBox is not painted.",
  ["configurations", "histories"], "every tree, every combination of animated transforms, origins, timings and repeats, every instant of every loop",
  "The decision is made once from geometry and timing; a wrong bound hides content only at particular instants of particular loops.",
  ["src/tree-ops/viewbox-culling.ts", "src/tree-ops/swept-transform-bounds.ts", "src/render/culling-geometry.ts", "docs/33-element-out-of-viewbox-hiding.md"],
  [("visibility windows", "src/tree-ops/viewbox-culling.ts cullElementsOutsideViewBox"), ("swept bounds", "src/tree-ops/swept-transform-bounds.ts conservativeSweptBoxes"), ("painted bounds", "src/render/culling-geometry.ts buildRendererCullGeometry")],
  "Random multi-frame scenes are culled, rendered, composed and played; the box of every element is carried through the played transforms and clipped to the viewBox, and an element with visible area must not be hidden. Static pages are checked both ways.",
  "Boxes under an overflow clip and frozen (captured) transforms are not judged; transform origins only on elements without animated descendants.")
prop("P01", "Sharing image payloads stores each picture once and changes nothing on screen",
  "Deduplicating the images of a document, when building it or afterwards, leaves the same picture: every image keeps its place, fit, clipping, styling, animation and id. Afterwards each distinct payload is stored once, every reference resolves to the picture it replaced, and doing it again changes nothing.",
  ["inputs"], "every document with repeated, differently styled, resized and nested images",
  "Tests share one or two images; which attributes may move to the shared definition depends on every use of the picture.",
  ["src/post-processing/hoist-image-payloads.ts", "src/render/element-tree-to-svg.ts"], [("payload hoisting", "src/post-processing/hoist-image-payloads.ts")],
  "Random documents with repeated images in random groups, clips, styles and animations are deduplicated, rasterised before and after and compared pixel by pixel; payload counts, ids and idempotence are checked on the parsed document, and the producers of the package are checked end to end.",
  "Pictures are compared by the librsvg rasteriser, static state only; animated state is compared structurally.")
prop("P02", "Optimising, subsetting and compressing keep picture, motion, text and fonts",
  "The optimised form of a generated document draws the same picture, plays the same animations with the same timing, and keeps its text, title and embedded fonts; embedded fonts converted to WOFF2 keep every glyph; the gzipped form unpacks to the document it was made from.",
  ["inputs", "configurations"], "every generated document, still or animated, and every embedded font",
  "Tests optimise a few documents and look for substrings; a plugin that merges, rounds or renames breaks only particular documents.",
  ["src/post-processing/optimize.ts", "src/post-processing/woff2-fonts.ts", "src/post-processing/gzip.ts"], [("optimiser settings", "src/post-processing/optimize.ts optimizeSvg"), ("WOFF2 conversion", "src/post-processing/woff2-fonts.ts compressEmbeddedFontsToWoff2")],
  "Random generated documents (boxes, gradients, transforms, clips, text, animations, transitions) are optimised; rasters are compared, animations are played by the independent evaluator before and after at random instants, text and fonts are compared; fonts are decoded and compared glyph by glyph.",
  "Raster comparison has a small tolerance for number rounding.")
prop("E01", "Comparing two captures classifies every element once and truthfully",
  "Comparing two captured trees puts every element of either tree in exactly one class: unchanged, moved, modified, added or removed; unchanged and moved pairs have equal content, modified pairs the same place in the structure, and each pair's displacement is the true one; equal trees are all unchanged. Pruning a tree removes exactly the elements asked for and visiting meets every element once, in document order, and neither touches its input.",
  ["inputs", "histories"], "every pair of trees, with repeated content, hostile text and ids, and every edit between them",
  "Tests compare hand-made trees; pairing depends on every repeated fingerprint and ambiguity in the tree.",
  ["src/tree-ops/tree-diff.ts", "src/tree-ops/prune-tree.ts", "src/tree-ops/for-each-element.ts"], [("fingerprint matching", "src/tree-ops/tree-diff.ts diffTrees"), ("pruning", "src/tree-ops/prune-tree.ts mapTreePruning")],
  "Random forests and randomly edited copies are compared with a reference matcher over structural content; counts, pairs, displacements and the summary are checked, inputs are frozen. Pruning and visiting are compared with list comprehensions.",
  "Ambiguous pairings (equal content) may be resolved in any truthful way.")
prop("E02", "Embedding images inlines every remote picture and keeps it sharp enough",
  "After embedding, every image a captured page uses, wherever it is used, is inlined with the bytes and type the server sent, or left and reported once; each address is requested at most the allowed number of times, refusals are not retried, and a server that stalls anywhere cannot hold the run past its time limit. A resized copy shows the same picture and never has fewer pixels than it is painted with, up to its original size.",
  ["inputs", "faults"], "every set of uses and every behaviour of the network: refusals, failures, stalls before and inside the body",
  "Tests answer or fail a single fetch; stalls, partial failures and shared addresses need every combination.",
  ["src/capture/embed.ts"], [("embedding", "src/capture/embed.ts embedRemoteImages"), ("resizing", "src/capture/embed.ts resizeEmbeddedImages")],
  "Random trees using images in every position are embedded against a stand-in network with injected faults; requests, warnings and results are compared with a model. Random images are resized for random boxes and fits, decoded and compared.",
  "The network is a stand-in; time limits are shortened through the public options.")
prop("C01", "Stacked layers keep their own look, text and motion, each on its own time",
  "In a composite of animated documents every layer shows exactly what its own document shows, at its place, size and stacking position and on its own timeline: nothing before its start, its natural or stretched rate in its window, its last visible state held afterwards, or its own loop. Names never leak between layers, at any depth of nesting, and no visible text or attribute is altered. Layer animations move, scale, fade and clip the whole layer in their own windows, together, without disturbing its inner motion.",
  ["inputs", "configurations", "histories"], "every stack of documents whatever names and text they contain, every combination of timelines and layer animations, every instant",
  "Tests look for substrings of one composite; name clashes, hold states and combined animations depend on every pair of inputs and every instant.",
  ["src/animation/composite.ts", "src/animation/embed-namespace.ts", "src/animation/embed-timeline.ts", "src/animation/svg-meta.ts"],
  [("stacking", "src/animation/composite.ts composeAnimatedLayers"), ("name isolation", "src/animation/embed-namespace.ts namespaceEmbeddedAnimatedSvg"), ("re-timing", "src/animation/embed-timeline.ts offsetEmbeddedAnimatedSvgTimeline")],
  "Random stacks of documents (hand-made with clashing names and hostile text, made by the animator, or themselves composites) with random places, timelines and layer animations are composed; composite and sources are both played by the independent evaluator at random instants, and opacity, position, paint, references, fonts, text and clip of every leaf are compared with the source at the mapped time times the layer's own motion.",
  "Layer windows longer than the loop, overlapping animations of one property and mixed origins are not generated.")
prop("V01", "Video and image export sample every animation at the right instants",
  "Exporting a document as video takes, for each frame of the requested rate, the picture of the instant in the middle of that frame with every animation (CSS or SMIL, early or late to join) at that instant, for the whole loop, and hands exactly those pictures in order to an encoder told the format, size, transparency, colours, sounds and captions that were asked for. A still image shows the requested instant at the requested size. An encoder or browser that fails at any moment fails the run with its cause and leaves nothing running.",
  ["inputs", "configurations", "faults"], "every document, rate, size, format and sound, and every moment at which the encoder or browser can fail",
  "Tests check fragments of the command line and one run; paths, sizes and failure moments need every combination.",
  ["src/cli/svg-to-video-core.ts", "src/cli/svg-to-image-core.ts", "src/animation/svg-meta.ts"],
  [("conversion", "src/cli/svg-to-video-core.ts runSvgToVideo, buildFfmpegArgs"), ("stills", "src/cli/svg-to-image-core.ts runSvgToImage")],
  "Random conversions run against a stand-in browser (with animations that must be paused and sought) and a stand-in encoder that records what it is sent, with deaths injected at random bytes and calls; the encoder's command line and filter graph are read by an independent parser of the documented syntax and compared with the request.",
  "No browser or ffmpeg is installed: both are stand-ins; pixels of real frames are out of reach.")
prop("R01", "Boxes are stacked, clipped and composited as CSS paints them",
  "A captured page's boxes are painted in the order CSS 2.1 Appendix E gives for their positions, z-indices, floats, flex items and stacking contexts; each is cut by exactly the overflow and containment clips on its containing-block chain, and translucent stacking contexts fade as one group. Hit-testing reports the box painted on top there.",
  ["inputs", "configurations"], "every nesting of positioned, floated, flex, clipped and grouped boxes",
  "Tests pin hand-made pages one rule at a time; stacking bugs appear when three or four rules nest.",
  ["src/render/stacking.ts", "src/render/element-tree-to-svg.ts", "src/render/paint-order.ts"],
  [("stacking", "src/render/stacking.ts gatherStackingContextChildren, paintOrderBuckets"), ("clips of hoisted boxes", "src/render/element-tree-to-svg.ts renderElementWithOverflowClip"), ("hit-testing", "src/render/paint-order.ts hitTestTopmost")],
  "Random pages are painted by an independent Appendix E painter into a pixel buffer and compared, pixel by pixel, with the rasterised SVG; the topmost box on a grid of points is compared with hitTestTopmost.",
  "Not generated: 3D transforms, reversed flex directions, fixed boxes inside scrollers, content escaping a clip that applies to its whole stacking context; hit-testing on block-level boxes only.")

prop("R02", "Backgrounds, borders, shadows and outlines are painted as CSS paints them",
  "A box's background colour, gradient and image layers, borders, corner radii, outer and inset shadows and outline are painted by the SVG as CSS Backgrounds 3 and CSS Images 3 define: every pixel away from an edge has the colour those specifications give for the captured styles.",
  ["inputs", "configurations"], "every combination of sides, radii, layers, sizes, positions, repeats, clips, gradients and shadows",
  "The styles combine freely; tests assert attributes of one feature at a time and never look at the picture two of them make together.",
  ["src/render/element-tree-to-svg.ts", "src/render/gradient-defs.ts", "src/render/image-pattern.ts", "src/render/borders.ts"],
  [("colour, layers, borders, shadows", "src/render/element-tree-to-svg.ts paintBackgroundColor, paintBackgroundImageLayers, paintUniformSolidBorder, paintBoxShadow, paintInsetBoxShadow, paintOutline"), ("gradients", "src/render/gradient-defs.ts"), ("tiling", "src/render/image-pattern.ts")],
  "Random styled boxes are shaded per point by an independent model of the two specifications and compared with the rasterised SVG at every pixel the model says is smooth.",
  "Pixels on an edge of any shape are not judged. Not generated: solid borders only, opaque gradient stops (translucent ramps are rasterised by the browser at capture), conic gradients, inner curves that do not fit their box, spreads larger than a radius.")

prop("R03", "Whatever a page holds, its rendering is one well-formed, coherent document",
  "Whatever text, attributes, inline SVG, forms, images, lists, effects and styles a captured page holds, rendering it yields one well-formed SVG document: every reference resolves, no two different things share an id, every length is a number, and the captured page itself is left as it was. Rendering it again, after any other page, gives the same document, and two frames rendered for one document never collide.",
  ["inputs", "histories"], "every page content, hostile strings included, and every order of renderings in one process",
  "One odd character in one attribute makes the whole output unreadable; tests use tame strings and render one page per process state.",
  ["src/render/element-tree-to-svg.ts", "src/render/svg-inline.ts", "src/render/mask.ts", "src/render/form-controls.ts", "src/render/text.ts"],
  [("document", "src/render/element-tree-to-svg.ts elementTreeToSvg, elementTreeToSvgInner"), ("inline SVG", "src/render/svg-inline.ts htmlSvgToXml, prefixSvgIds"), ("fragments", "src/render/mask.ts rewriteFragmentMaskDef")],
  "Random pages of every element kind the renderer knows, with strings chosen to break markup and inline SVG as the browser serialises it, are rendered and read back by a strict XML parser that checks ids, references and numbers; the same page is rendered again after another and compared byte for byte, and two pages are rendered as frames of one document.",
  "Glyph outlines may be repeated in a second frame if identical. Rendering may fill in the tree's propagatedDecorations field. Values that are not numbers in the capture are not generated.")

prop("A04", "Frame overlays appear, move and leave in their own windows",
  "Every overlay of a frame (typed or pasted text with caret and slips, SVG picture with slides, tap, blink, interaction, shine) is painted only within its window, wherever the window falls in the loop and in every lap, with the position, size and strength its options give at every instant. Typed text appears character by character in order, complete when typing is due to end, each glyph exactly where the keystroke left the caret, wrapped within its width; slips come and go before the character they replaced; neighbours and other frames are never disturbed.",
  ["inputs", "configurations", "histories"], "every combination of overlays, options, frames and instants, in the first lap and later ones",
  "Tests match fragments of one overlay's CSS; edges that meet, windows cut short and repeats that outlive their frame show only when the whole loop is played.",
  ["src/animation/animator.ts", "src/animation/shine.ts", "src/animation/overlay-schema.ts"], [("overlays", "src/animation/animator.ts renderSvgOverlay, renderTypingOverlay, renderTapOverlay, renderBlinkOverlay, renderInteractOverlay, renderShineOverlay"), ("sweep geometry", "src/animation/shine.ts buildShineSweep")],
  "Random scenes of frames and overlays are played by the independent evaluator at random instants and at every stated edge, in several laps, and each overlay's opacity, place and size is compared with the value its documented options give; the typing overlay's reveal, caret, glyphs, slips, mask and exit are compared with one another and with the keystroke plan.",
  "Glyph advances come from the fonts of the sandbox; instants are compared to the 0.01 % of the loop the stops are printed at. Very short typing windows are checked for visibility only.")

prop("A05", "The cursor overlay follows its script",
  "At every instant of every lap the pointer is where the script puts it: held or jumping unless a move has a duration, sliding straight to its target in exactly that time, met part-way by events that interrupt it; it shows only between the events that show and hide it, with the glyph an event forces or else the cursor the page has under it in the frame on screen, in the colours and size asked for. Every click rings once per lap where the pointer was at that instant, for its own duration, radius and button, and nothing rings otherwise.",
  ["inputs", "histories"], "every script, frame sequence, page cursor and style, at every instant of every lap",
  "Tests read the resolved points of a few scripts; what the keyframes make of them between and across events is never played.",
  ["src/animation/cursor-overlay.ts", "src/animation/cursor-glyphs.ts", "src/animation/animator.ts"], [("script", "src/animation/cursor-overlay.ts resolveCursorScript"), ("markup", "src/animation/cursor-overlay.ts cursorOverlayMarkup, buildPulseFragment")],
  "Random scripts, with overlapping and late events, are put over random scenes and played by the independent evaluator at random instants, around every event and hundreds of laps later; position, visibility, glyph, colours and click rings are compared with a small reference machine of the script.",
  "A glyph found under the pointer may lag by one 40 ms sampling step.")
prop("A06", "Carets and selections sit on the text they address, when the script says",
  "An address counts the characters of the target's whole subtree in reading order, and the caret drawn for it sits exactly on that character's painted cell — bar, block or underscore, mirrored for right-to-left characters, turned for columns — from its event until the next move or hide, on in the first half of every blink; an inverting block repaints exactly the character it covers, in that character's own font. A selection covers at every instant exactly the characters swept so far, one strip per run and direction growing from its reading-order start, until it is cleared (even mid-sweep) or the lap ends.",
  ["inputs", "histories"], "every captured text layout, caret style and event script, at every instant of every lap",
  "Tests read the resolved points and keyframe text of a few simple targets; mixed content, sweeps cut short and what plays between events are not sampled.",
  ["src/animation/caret-track.ts", "src/animation/text-address.ts", "src/animation/caret-metrics.ts"], [("addresses", "src/animation/text-address.ts resolveCaretPoint, resolveRangeRects"), ("markup", "src/animation/caret-track.ts textTrackMarkup, selectionMarkup")],
  "Text is laid out by the check's own generator (so every character's cell is known) over own, child and grandchild runs, wrapped lines, right-to-left words, columns and inputs; random scripts are played by the independent evaluator at random instants, around every event and mid-sweep, and the carets, inverted glyph outlines and selection strips are compared with a small reference machine.",
  "The width of the empty cell after the last character is only bounded.")

prop("A07", "A compressed run shows every captured state exactly as its own still",
  "A run composed from any sequence of captured states — text typed, deleted, recoloured, lines moved, scrolled, restyled, undone, boxes and popups coming, going and moving — shows at every instant of each state's hold, in every lap, exactly the picture the renderer draws for that state alone, whichever regions are declared or demoted. The run lasts the sum of the holds, its identifiers are unique and the captured trees are left untouched.",
  ["inputs", "histories"], "every sequence of captured states, at every instant of every lap",
  "Tests count groups and match fragments for a few edits; whether glyph tracks, box windows and paint order add up to each state's picture is never looked at.",
  ["src/animation/compressed-run.ts", "src/animation/glyph-align.ts", "src/render/element-tree-to-svg.ts"], [("run", "src/animation/compressed-run.ts composeCompressedRun, extractState, buildCompressedRunPlan"), ("pairing", "src/animation/glyph-align.ts alignLineGlyphs")],
  "Random editor-like scenes are taken through random edits; the run is frozen at instants in every hold (animated values folded in, embedded fonts turned into outlines by an independent reader) and rasterised, and must match the raster of that state's own still pixel for pixel.",
  "Pixels where the glyphs of two runs of text overlap are not judged (which is on top there), nor sub-visible differences (channel difference up to 48).")

prop("R04", "Text is painted glyph for glyph where the page had it",
  "In both text modes, every character of captured text is painted with the outline of the captured family, weight and style at its captured position, size and colour: across runs with their own look, lines, inputs and text areas, right-to-left words, strokes, shadows, clips, opacity and transforms. Shadows repeat the same glyphs in the shadow's colour, beneath; a character captured as an image shows that image and one captured as painted elsewhere shows nothing.",
  ["inputs"], "every captured block of text and both text modes",
  "Tests match fragments of markup for single strings; whether each glyph lands on its captured position in the right face, size and colour is never looked at.",
  ["src/render/text.ts", "src/render/text-to-path.ts", "src/render/embedded-font-builder.ts", "src/render/element-tree-to-svg.ts"], [("dispatch", "src/render/element-tree-to-svg.ts paintText, textShadowCopy, resolveTextFill"), ("runs", "src/render/text.ts renderSingleLineText, renderMultiSegmentText, renderMultiLineText, renderInputText"), ("glyphs", "src/render/text-to-path.ts renderTextAsPath")],
  "Random blocks of text are rendered in both modes; the picture must equal the raster of outlines read from the installed font files by an independent reader and placed by the check at the captured positions.",
  "Faces of the sandbox (Liberation, DejaVu); decorations, emphasis marks, ligature and mark shaping are not judged here; a few pixels of rasteriser noise are tolerated.")

prop("F01", "An animate config is carried out as written",
  "At both ends of every frame's and state's hold the composed film shows the page as the config's steps leave it at that point — after its loads or continuations, readiness waits, scrolling, actions in order, forced or revealed states and variable substitution, cropped to the frame's own selector — with that frame's or state's overlays placed on their anchors and only inside their delay and end. The browser is asked for exactly those steps in that order, in one context that is closed at the end, and collapsing runs (automatically, by hand, or by region) changes nothing on screen.",
  ["inputs", "histories"], "every animate config and every page it drives",
  "Tests check one option at a time against mocked pages; how loads, steps, runs, regions, overlays and timing combine across frames is not sampled, and no composed film is ever looked at.",
  ["src/cli/animate.ts", "src/cli/common.ts", "src/animation/compressed-run.ts", "src/animation/resolve-overlays.ts", "src/animation/animator.ts"], [("pipeline", "src/cli/animate.ts composeAnimateConfig, buildCapturedFrame, buildStatesRunContent"), ("steps", "src/cli/animate.ts runActions, interpolateConfigVars, expandHoverReveal"), ("overlays", "src/cli/animate.ts resolveSvgOverlays")],
  "Random configs drive a stand-in browser (a happy-dom page with the check's own layout) while a separate model of the page takes the same steps; each hold of the composed film is frozen, rasterised and compared with the raster of the model's page at that point, and the ordered log of requests with the model's.",
  "Transitions, cursors and text tracks are judged by A01, A04-A06; the capture script itself needs Chromium, which is absent, so captures come from the stand-in.")

prop("G01", "The scrubber and the reviewer export exactly what they show",
  "A window trimmed out of an animated SVG shows, at every instant of every lap, what the whole film shows that far after the window's start, and a cropped export shows exactly the chosen part of the picture, with crop boxes staying inside the frame, at their locked ratio and anchored where the handle leaves them. Over any history of requests, also at once and with pages or browsers failing in between, each exported picture is the drawing, instant and part asked for, malformed requests are refused, tickets record what was sent and stay in their folder, and a later request works again. The pages served carry exactly the drawing, labels and pictures given, whatever characters they contain, and the pictures stay available after their files vanish.",
  ["inputs", "histories"], "every animated document, window, crop box and history of requests",
  "Tests pin a few keyframe lists and one crop; whether a trimmed film plays like the original is never sampled, and the servers are exercised one request at a time.",
  ["src/scrubber/trim.ts", "src/scrubber/crop.ts", "src/scrubber/server.ts", "src/review/server.ts"], [("trim", "src/scrubber/trim.ts trimAnimatedSvg"), ("crop", "src/scrubber/crop.ts clampCrop, cropSvgViewBox, fitRectToAspect, constrainResizeToAspect"), ("servers", "src/scrubber/server.ts startScrubberServer, src/review/server.ts startReviewServer")],
  "Random animated documents (hand-written and composed by the animator) are trimmed and cropped; both films are frozen at the same instants, rasterised and compared; crop boxes are checked against their geometric definition; random request histories with injected failures drive the real servers over loopback against a model, with a stand-in browser whose screenshots say what it was showing.",
  "Eased tracks cut in the middle of a segment use the linear value at the cut (an existing test pins this), so tracks are linear or stepped here.")

prop("F02", "A storyboard plays its scenes one after another, each as it is alone",
  "During its hold, every scene of a storyboard looks exactly as its own drawing, film, recording or capture looks at that moment of its own timeline, placed by its fit, from its first instant when the scene begins and held at its last when it ends, cut short where the scene is shorter, in every lap; scenes never borrow each other's names, fonts or styles, overlays and the pointer act inside the scene they belong to, and a static scene without a duration is refused. Captured pages are asked for exactly what the config says, and every browser context is closed.",
  ["inputs", "configurations"], "every storyboard config and every document its scenes embed",
  "Tests compose a few storyboards and look for substrings; whether a nested film is retimed, isolated and placed right depends on every scene's own markup and period.",
  ["src/cli/storyboard.ts", "src/animation/embed-timeline.ts", "src/animation/embed-namespace.ts", "src/animation/svg-meta.ts", "src/cli/animate.ts"], [("scenes", "src/cli/storyboard.ts composeStoryboardConfig, renderScene"), ("retiming", "src/animation/embed-timeline.ts offsetEmbeddedAnimatedSvgTimeline"), ("overlays", "src/cli/animate.ts resolveSvgOverlays")],
  "Random storyboards of hand-drawn SVGs in many spellings, generated films, terminal recordings and captures are composed; each scene's hold is frozen and rasterised and compared with the scene's own document frozen at the matching instant and placed by the check.",
  "What transitions look like in between is A01's; a terminal caret's own free-running blink and template scenes are not judged; the browser is a stand-in.")
prop("F03", "A template's picture is what its parameters say",
  "Whatever the parameters, brand and format, a built-in template hands over a page that carries every given text whole and as written (never as markup, never half a character) in the given colours and sizes, inside the format's safe area; every animation finds exactly one element, ends inside the scene and leaves it at rest; a counter's, timer's or stat's columns roll digit by digit from the first value and read the last; a chart's bars, lines, segments and slices are in proportion to the data, on the printed axis; a before/after wipe, its divider and its labels keep time with each other in every lap; a looping background repeats without a seam; explicit parameters win over the brand's, the brand's over the defaults.",
  ["inputs", "configurations"], "every parameter set, brand and format of the built-in templates",
  "Tests render a few parameter sets and look for substrings; proportion, alignment, timing and escaping depend on every value and text.",
  ["src/templates/builtin/*.ts", "src/templates/brand.ts", "src/templates/formats.ts", "src/templates/render.ts"], [("cards", "src/templates/builtin/{lower-third,title-card,quote,caption,cta,chat,subscribe}.ts"), ("numbers", "src/templates/builtin/odometer.ts planOdometer, planTimer, buildOdometerMarkup"), ("charts", "src/templates/builtin/chart.ts"), ("compare", "src/templates/builtin/compare.ts"), ("loops", "src/templates/builtin/background-loop.ts")],
  "Random parameters, brands and formats are rendered with a stand-in for the animate pipeline; the page handed over is parsed, its texts, numbers and geometry are compared with values worked out from the parameters, charts and wipes are rasterised and measured, and the scene's animations are checked against the page.",
  "The page's CSS layout is not run (no browser); device-mockup scenes are not judged.")
