// Properties: the source of properties.jsonl and of the checks of MANIFEST.json (bin/manifest writes both).
const C = 'packages/vgrammar-core/src/';
const P = (id, title, statement, over, text, why, files, mechanism, spec, note) => ({ id, title, statement, over, text, why, files, mechanism, spec, note });
const m = (name, where) => ({ name, where });
const defs = [
  P('D01', 'A run re-evaluates exactly what changed, in dependency order, once each',
    'On every view.run(), each grammar (signal, data, scale, mark) that was changed or that depends, directly or transitively, on a changed grammar is evaluated exactly once, after everything it depends on; grammars not downstream of a change are not evaluated. After the run every value equals the function of its current inputs.',
    ['programs', 'histories'], 'every acyclic graph of signals, data, scales and marks, every order of creation, and every sequence of value changes, re-specifications and runs',
    'The order of evaluation depends on creation order, ranks and the history of re-specifications; a test fixes one graph and one history.',
    [C + 'view/dataflow.ts', C + 'view/grammar-base.ts', 'packages/vgrammar-core/src/view/data.ts', C + 'view/signal.ts', C + 'view/scale.ts', C + 'view/mark.ts', 'packages/vgrammar-core/src/util/grammar-heap.ts'],
    [m('Dataflow.evaluate / _enqueue / _reRank', C + 'view/dataflow.ts'), m('rank heap', C + 'view/dataflow.ts')], 'spec/Dataflow.tla, DataflowMC.tla, DataflowTrace.tla',
    'TLC enumerates all command sequences on small graphs (safety and termination); generated and seeded command sequences are replayed on real views of up to 9 grammars and every recorded evaluation and final value is checked step by step against the specification. Acyclic graphs only.'),
  P('D02', 'A grammar depends on another exactly while some of its options refer to it',
    'After any sequence of re-specifications (encoders, domains, ranges, scale configuration, transforms with references inside array options, states, join source, signal update functions, depend()), a grammar is re-evaluated when a grammar changes if and only if one of its current options still refers to it: references held several times survive until the last one is dropped, and dropped references stop triggering evaluation.',
    ['histories', 'programs'], 'every sequence of re-specifications that add, repeat and drop references, in every option of every kind of grammar',
    'Needs long histories of repeated and dropped references across different options; tests set each option once.',
    [C + 'view/grammar-base.ts', C + 'view/data.ts', C + 'view/signal.ts', C + 'view/scale.ts', C + 'view/mark.ts', C + 'parse/transform.ts'],
    [m('attach/detach reference counts', C + 'view/grammar-base.ts')], 'spec/Dataflow.tla, DataflowMC.tla, DataflowTrace.tla',
    'Same specification as D01 with histories dominated by re-specification of option slots; a missing or spurious evaluation is rejected by the trace specification.'),
  P('J01', 'Marks join data to keyed elements with stable identity and diff states',
    'After every run a mark has exactly one element per distinct key within each group of its data (per group for collection marks), holding exactly that entry\'s rows in data order, in data order or in the order of the mark\'s sort; an element whose entry survives keeps its identity and graphic and reports update, a new one reports enter, and a vanished one is removed from the mark and the scene graph. A run in which nothing the mark depends on changed reports no enters or exits.',
    ['histories', 'inputs'], 'every sequence of data changes, re-joins with other keys/groups/sorts, and runs, including duplicate keys and empty data',
    'Identity and duplicates depend on the history of joins, which the tests do not build (no test builds a view).',
    [C + 'view/mark.ts', C + 'graph/mark/differ.ts', C + 'graph/element.ts', C + 'view/data.ts'],
    [m('Mark.evaluateJoin', C + 'view/mark.ts'), m('Differ', C + 'graph/mark/differ.ts')], 'spec/Join.tla, JoinMC.tla, JoinTrace.tla',
    'TLC model-checks uniqueness and identity on all small histories and generates behaviours; those and seeded ones are replayed on real views and each observation (elements, order, diff states, children) is checked.'),
  P('E01', 'Graphics carry the attributes their encoders give for the current data',
    'After a run every element\'s graphic has, for each channel, the value its encoders give for the current data, signals and scales: group encoders first, enter encoders when the element enters (or the enter encoder was changed; always for collection marks), update encoders last, with constant, field, signal, function and scale (field or value, offset, band) encoders. Channels without an applicable encoder keep their value, and points of a collection mark follow its rows in order.',
    ['inputs', 'histories', 'programs'], 'every assignment of encoders of every form to channels and states, with every sequence of data, signal and encoder changes and runs',
    'Combines encoder forms, states, precedence and the history of changes; no test evaluates a mark in a view.',
    [C + 'graph/element.ts', C + 'graph/mark/encode.ts', C + 'view/mark.ts', C + 'graph/attributes/line.ts', C + 'graph/attributes/helpers.ts'],
    [m('encodeItems / encodeGraphic', C + 'graph/element.ts'), m('invokeEncoder', C + 'graph/mark/encode.ts')], 'spec/Encode.tla, EncodeTrace.tla',
    'Seeded encoder programs run on real symbol and line marks; every attribute and point after every run is compared with the specification by trace validation.')
,
  P('S01', 'Element states override base attributes in order and are undone exactly',
    'Through any sequence of setting, adding, removing, updating and clearing element states (encoded, functional or given at run time), mark state specifications, and re-encoding runs, each element has the active states those operations define, ordered by the mark\'s state sort when there is one, and its graphic shows the base value of each channel overridden by the active states in order. Removing a state restores exactly what the remaining states and the base give, and attributes given at run time last until their state is removed or cleared.',
    ['histories', 'inputs', 'configurations'], 'every history of state operations interleaved with runs, data, signal and state-encoder changes, on element and collection marks, with and without state animation',
    'The result depends on the order and history of overlapping states and on caches between runs; the tests do not build marks in a view.',
    [C + 'graph/element.ts', C + 'view/mark.ts'],
    [m('useStates / addState / removeState / updateStates / clearStates / getStateAttrs', C + 'graph/element.ts'), m('Mark.evaluateState', C + 'view/mark.ts')], 'spec/States.tla, StatesMC.tla, StatesTrace.tla',
    'TLC checks the laws of states on all small histories and generates behaviours; those and seeded ones run on real marks and active states and attributes of every element are compared after every operation.')
,
  P('A01', 'Animations start, end, and release elements exactly when they should',
    'On every run, exactly the configured animations whose state is the element\'s diff state (or its custom animation state) start, for enabled marks and states; a new animation of a configuration replaces its predecessor on the element; state changes with stopWhenStateChange, exiting and re-entering end what was running. Start and end events come in pairs per element, an animation\'s start (end) event exactly with its first (last) element, and the view\'s all-animation start (end) exactly when the first begins (the last ends). Forced, one-off, stopped, paused, disabled animations and replaced configurations follow the same rules. An exiting element stays in the scene exactly while an exit animation runs on it; an element nothing animates shows its final attributes.',
    ['histories', 'schedules', 'configurations'], 'every interleaving of data updates, animation commands and clock advances on the marks of a view',
    'Timing and interleaving of frames with data changes and commands decide the result; the tests do not animate marks.',
    [C + 'graph/animation/animate.ts', C + 'graph/animation/animator.ts', C + 'graph/animation/config.ts', C + 'view/animate.ts', C + 'view/mark.ts'],
    [m('Animate', C + 'graph/animation/animate.ts'), m('ViewAnimate', C + 'view/animate.ts'), m('cleanExitElements', C + 'view/mark.ts')], 'spec/Anim.tla, AnimMC.tla, AnimTrace.tla',
    'TLC checks safety on all small histories and that everything comes to rest; behaviours run on real marks under a controlled clock, and every event and element is validated against the specification (end times bounded to 60 ms).')
,
  P('T01', 'Relational data transforms compute their documented results in pipelines',
    'For every pipeline of filter, sort, map, pick, fold, unfold, join (lookup), range and identifier transforms and post filters, the rows of a data set equal the composition of the documented results on its current values, lookup rows and signals, after every run. Sorting is stable and lexicographic with a direction per field; fold emits one row per row and field; unfold one row per group with aggregated columns; lookups take the last matching row or the default; identifiers are unique. A derived data set never changes the rows or the order of its source.',
    ['inputs', 'histories'], 'every pipeline of these transforms (constant or signal parameters), every table, and every history of new values, lookups, signals, pipelines and filters',
    'Each unit test calls one transform once on one table; composition, re-evaluation, shared rows and unusual keys are never exercised.',
    [C + 'transforms/data/filter.ts', C + 'transforms/data/sort.ts', C + 'transforms/data/map.ts', C + 'transforms/data/pick.ts', C + 'transforms/data/fold.ts', C + 'transforms/data/unfold.ts', C + 'transforms/data/join.ts', C + 'transforms/data/range.ts', C + 'transforms/view/identifier.ts', C + 'parse/transform.ts', C + 'parse/option.ts', 'packages/vgrammar-core/src/view/data.ts', 'packages/vgrammar-util/src/compare.ts'],
    [m('data transforms', C + 'transforms/data/'), m('transform options', C + 'parse/option.ts'), m('post filters', 'packages/vgrammar-core/src/view/data.ts')], 'spec/Xform.tla, XformMC.tla, XformTrace.tla',
    'The specification defines the rows each transform yields; TLC explores all short histories over a catalogue of pipelines with relational laws as invariants; generated and seeded histories run on real views and every output is compared with the specification. Pipelines that overwrite a field they read are excluded (maps write in place by design).'),
  P('T02', 'Layout data transforms partition their totals and keep row order',
    'bin puts every value into the half-open bin containing it (the last bin closed); pie splits the angle interval proportionally, contiguously and up to its end; funnel ratios relate each row to its neighbours and the maximum; stack accumulates each sign of each dimension in order (or reversed) with consistent previous values, sums and percentages and the chosen baseline. Sampling returns rows in their order, keeps all rows when they fit, and chooses or aggregates one row per frame, per group.',
    ['inputs'], 'every table, every combination of requested outputs and every option of bin, pie, funnel, stack and sampling',
    'Tests compare a handful of tables with a full set of outputs; the boundary values, omitted outputs and group/frame remainders are unbounded.',
    [C + 'transforms/data/bin.ts', C + 'transforms/data/pie.ts', C + 'transforms/data/funnel.ts', C + 'transforms/data/stack.ts', C + 'transforms/data/sampling.ts'],
    [m('layout transforms', C + 'transforms/data/')], 'spec/Xform.tla, XformMC.tla, XformTrace.tla',
    'Same specification as T01: exact rational results of each transform; seeded tables and options run on real views and each output is compared (fractions to 0.001). Ties of lttb areas may be broken either way. Pie totals are positive.')
,
    P('C01', 'Scales map as their domain, range and options say, on current data and signals',
    'After every run each scale has the domain its specification describes on the current data, signals and coordinate - the extent of valid values of the given fields of all given data sets for continuous (and quantize) scales, the distinct values in data or sorted order for discrete ones, widened by zero, min and max - and the range of the constants, fields, signals or coordinate dimension given. It maps every value accordingly: linearly or piecewise, clamped and rounded as asked, into equal non-overlapping bands by padding, alignment and rounding, cyclically for ordinal, by thresholds for discretizing scales, and to the visible window of a range factor.',
    ['inputs', 'histories'], 'every scale type, table, source of domain and range and every history of changes of data, signals, options, domains and ranges',
    'No unit test evaluates a scale with data, signals or coordinates in a view; edge values and re-configuration are never exercised.',
    [C + 'view/scale.ts', C + 'parse/scale.ts', 'packages/vgrammar-coordinate/src/cartesian.ts'],
    [m('configureScale', C + 'parse/scale.ts'), m('Scale', C + 'view/scale.ts')], 'spec/Scale.tla, ScaleMC.tla, ScaleTrace.tla',
    'The specification computes the map of each scale type in thousandths; TLC checks end-to-end and tiling laws on all short histories; generated and seeded histories run on real scales and domain, range, bands and probe values are compared. zero with min/max, reversed explicit domains and log/sqrt/symlog interiors are not judged.')
,
    P('I01', 'Interactions set exactly the element states their options and events define',
    'While bound, the select, highlight and active interactions (single, multiple, reversed, by key, group, name, graphic name or legend item) put exactly the chosen elements of their marks into their state and the others into the reverse or blur state, through any history of pointer, legend and API events, timeouts and data changes. They clear those states exactly on the events, empty clicks or timeouts that triggerOff names, report each start and reset once with the elements concerned, and have no effect once unbound.',
    ['histories', 'configurations', 'schedules'], 'every history of events on elements, other marks and the empty stage, API calls, timer expiry, data updates and binding or unbinding, for every interaction kind and its options',
    'What an event does depends on everything selected or highlighted before, on other interactions sharing elements and on data that changed meanwhile; the tests bind no interaction to a view.',
    [C + 'interactions/base.ts', C + 'interactions/toggle-state-mixin.ts', C + 'interactions/element-select.ts', C + 'interactions/element-highlight.ts', C + 'interactions/element-active.ts', C + 'view/View.ts'],
    [m('updateStates / clearAllStates', C + 'interactions/toggle-state-mixin.ts'), m('start / handleReset', C + 'interactions/element-select.ts'), m('interaction / removeInteraction / getMarksBySelector', C + 'view/View.ts')], 'spec/Interact.tla, InteractMC.tla, InteractTrace.tla',
    'TLC checks on all small histories that selected elements are those remembered and nothing is left afterwards, and generates behaviours; those and seeded ones fire real events through the stage of a view and compare states and notifications after each.')
,
      P('G01', 'The scene drawn and the registry are a function of the current specification',
    'After every run the view draws exactly the marks of its current specification: every mark once, inside its group, in tree order, with its zIndex and clip and the elements its data and encoders give - no matter through which history of updateSpec, added, removed or re-added marks and groups, changes of data, signals, scales, encoders, and runs with or without re-use it was reached. A removed group takes its marks with it, and lookups by id and type answer for exactly the marks present.',
    ['histories', 'inputs'], 'every sequence of specifications and edits, with and without re-use, with runs at any point between',
    'Re-use, caching of removed marks and insertion order depend on what was drawn before and on what happened between two runs; no unit test compares a view that was edited with one built afresh.',
    [C + 'view/View.ts', C + 'view/mark.ts', C + 'view/group.ts', C + 'view/grammar-record.ts', C + 'graph/mark/differ.ts'],
    [m('reuseCachedGrammars / removeGrammar / updateSpec', C + 'view/View.ts'), m('reuse / insertGraphicNode', C + 'view/mark.ts'), m('RecordedGrammars', C + 'view/grammar-record.ts')], 'spec/Scene.tla, SceneMC.tla, SceneTrace.tla',
    'TLC checks that every mark is drawn once and that updateSpec erases history, and generates edit sequences; those and seeded ones run on real views, whose scene graph and registry are compared with the specification after every run.')
,
      P('V01', 'Event streams and listeners run callbacks and targets exactly when they should',
    'An event reaches a bound stream exactly if its selector (type, mark id, name or type, window) and filter match and the event configuration permits it; the stream then calls its callbacks and sets its target signals in order with current parameters, and the view is updated. Debounced, throttled, merged and between streams deliver the events their definition leaves, consume and prevent act on the event, mark listeners see exactly the events on their own elements, and nothing runs once unbound, after the specification is replaced or the view released.',
    ['histories', 'schedules', 'configurations'], 'every sequence of view and window events on elements and the empty stage, timer expirations, bindings and removals of streams and listeners, data and signal changes and updateSpec',
    'What an event triggers depends on the events before it (between, debounce, throttle), on other streams writing the same signals and on what was unbound; no unit test dispatches an event through a view.',
    [C + 'view/view-event-mixin.ts', C + 'parse/event.ts', C + 'view/events.ts', C + 'view/View.ts', C + 'view/mark.ts', C + 'graph/util/events-extend.ts'],
    [m('event / bindEvents', C + 'view/view-event-mixin.ts'), m('generateFilterByMark / parseEventSelector', C + 'parse/event.ts'), m('delegateEvent', C + 'view/View.ts')], 'spec/Events.tla, EventsMC.tla, EventsTrace.tla',
    'TLC checks binding of between streams, timers and call counts on all small histories and generates behaviours; those and seeded ones dispatch real events through the stage with a hand-driven clock and compare callbacks, signals, attributes and prevention.')
,
      P('K01', 'Coordinates place points and marks by their transforms, and inverting undoes it',
    'A coordinate maps each point of its plane to the canvas by translation, rotation about its origin, scaling and transposition as configured (a polar one through angle and radius), and inverting a converted point gives that point again. Ranges, axis positions and default origin and radius of each dimension follow start, end, origin, angle, radius and transposition. In a view, every mark with the coordinate is drawn at the converted position of its latest encoded position, whatever data, signals, settings and specifications came before.',
    ['inputs', 'histories', 'configurations'], 'every list of transforms, point form, range, origin, angle and radius, and every history of settings, signals, data and replaced specifications of views placed by a coordinate',
    'Few tests convert single points under single transforms; compositions, polar bounds, points with second ends, positions that are not encoded again and coordinates that are replaced are not sampled at all.',
    ['packages/vgrammar-coordinate/src/base.ts', 'packages/vgrammar-coordinate/src/cartesian.ts', 'packages/vgrammar-coordinate/src/polar.ts', C + 'view/coordinate.ts', C + 'parse/coordinate.ts', C + 'graph/element.ts'],
    [m('_invokeTransforms', 'packages/vgrammar-coordinate/src/base.ts'), m('configureCoordinate', C + 'parse/coordinate.ts'), m('coordinateTransformEncode', C + 'graph/element.ts')], 'spec/Coord.tla, CoordMC.tla, CoordTrace.tla',
    'TLC checks that the folded map stays invertible, radii ordered and configuration idempotent on all small histories and generates behaviours; those and seeded ones run the coordinate classes and views and compare points, ranges, axes and mark positions.')
,
    P('L01', 'View box, canvas and layout follow size, padding, theme and layout settings',
    'Width, height and padding set through options, specifications, themes, setters and resizing determine view box and view size, the canvas has the size of the view after every run and reports each change once, and marks using the view box are encoded with its current value. Laying out a container gives each child its cell of the grid or its side of the container with its padding, alignment and order, what is left is the content and, if asked for, becomes the view box. Laying out again without changes gives the same result, and children added, changed or removed meanwhile are taken into account.',
    ['histories', 'configurations', 'inputs'], 'every history of sizes, paddings, themes, resizes, specifications and runs of a view, and every relative or grid container with any sides, paddings, alignments, orders, tracks, gaps, spans and nested grids',
    'Tests lay out two fixed containers once with stub marks; sizes, paddings and themes in sequence, relayout, changed children and the view box coming from a layout are not sampled.',
    [C + 'view/View.ts', C + 'parse/view.ts', C + 'graph/layout/layout.ts', C + 'graph/layout/grid.ts', C + 'graph/layout/relative.ts', C + 'view/group.ts'],
    [m('builtInSignals', C + 'parse/view.ts'), m('defaultDoLayout', C + 'graph/layout/layout.ts'), m('doRelativeLayout', C + 'graph/layout/relative.ts'), m('computeGrid', C + 'graph/layout/grid.ts'), m('_resizeRenderer', C + 'view/View.ts')], 'spec/Layout.tla, LayoutMC.tla, LayoutTrace.tla',
    'TLC checks on all small histories that runs settle, layout is idempotent and boxes at one side do not overlap, and generates behaviours; those and seeded ones run in real views and every signal, canvas size, box and offset is compared.')
,
  P('P01', 'Progressive marks end up showing all their data, without a stale rest',
    'A mark whose groups exceed its threshold draws one step of every group per frame, in order and without losing, repeating or recolouring an item, until it shows exactly what it would show at once; so does a mark behind a progressive transform. When data, signals, settings, other grammars or the mark itself change meanwhile, the drawing starts again from current data (or continues if nothing it uses changed), and switching between progressive and ordinary drawing leaves nothing behind.',
    ['histories', 'schedules', 'configurations'], 'every interleaving of frames with runs, data, signal and setting changes and removals in views of several progressive and ordinary marks with any groups, steps and thresholds',
    'No unit test lets frames pass between the changes of a view with a progressive mark; what is drawn depends on where in the drawing the change came.',
    [C + 'view/View.ts', C + 'view/mark.ts', C + 'graph/element.ts', C + 'graph/mark/differ.ts'],
    [m('findProgressiveMarks / doPreProgressive / clearProgressive', C + 'view/View.ts'), m('evaluateProgressive / parseRenderContext / evaluateJoin', C + 'view/mark.ts')], 'spec/Progress.tla, ProgressMC.tla, ProgressTrace.tla',
    'TLC checks on all small histories that frames only add, finished marks stay and enough frames draw all data, and generates behaviours; those and seeded ones run in real views with a hand-driven frame clock and compare graphics, elements and groups after every run and frame.')
,
    P('H01', 'Hierarchy layouts place every node of any hierarchy by value, depth and options',
    'Treemap, sunburst, tree and circle-packing transforms give every node of a hierarchy its key, depth, index, leaf flag and value and hide exactly the nodes the depth and visibility options exclude. Treemap rectangles share the space of their parent in proportion to value without overlapping and keep gaps, padding and labels; sunburst sectors do so with angles and radii; trees keep siblings apart, parents centred and subtrees tight within the box; packed circles touch without overlapping inside their parent. Running again after changes of the hierarchy, the options or the box gives the layout of the current state, and the rows are left alone.',
    ['inputs', 'configurations', 'histories'], 'every hierarchy and box, all options of the four transforms as constants, per-level lists or signals, nested or flattened, on data or marks, and every sequence of changes and runs',
    'A handful of tests compares fixed coordinates of fixed hierarchies under single options; combinations of options per level, pruning and deep or lopsided hierarchies are not sampled.',
    ['packages/vgrammar-hierarchy/src/treemap/layout.ts', 'packages/vgrammar-hierarchy/src/sunburst/layout.ts', 'packages/vgrammar-hierarchy/src/tree/tree.ts', 'packages/vgrammar-hierarchy/src/tree/cluster.ts', 'packages/vgrammar-hierarchy/src/circle-packing/layout.ts', 'packages/vgrammar-hierarchy/src/format.ts'],
    [m('TreemapLayout', 'packages/vgrammar-hierarchy/src/treemap/layout.ts'), m('SunburstLayout', 'packages/vgrammar-hierarchy/src/sunburst/layout.ts'), m('tidyTree', 'packages/vgrammar-hierarchy/src/tree/tree.ts'), m('packSiblingsRandom', 'packages/vgrammar-hierarchy/src/circle-packing/siblings.ts'), m('calculateNodeValue', 'packages/vgrammar-hierarchy/src/utils.ts')], 'spec/Hier.tla, HierMC.tla, HierTrace.tla',
    'TLC checks that reference layouts satisfy the laws and that displacing any node breaks them, and generates histories; those and seeded ones run on real views and every layout is judged against the laws.')
,
    P('N01', 'Sankey layouts value, layer, stack and join nodes and links as the data says',
    'The sankey transform gives every node the value its links and own value demand and the layer its depth, alignment or user function says, drops isolated nodes and unknown links as asked, and shares node values among links without one. Columns keep node extents, gaps, order and alignment within the box, never overlapping where they fit, and every link starts and ends on the nodes it joins, stacked in order with its thickness, in both directions and inverted, with drawing shapes to match. Running again after changes of data, options or box gives the layout of the current state.',
    ['inputs', 'configurations', 'histories'], 'every acyclic graph or hierarchy, all options of the transform in combination, and every sequence of changes of data, options and box',
    'Tests compare fixed coordinates of a few fixed graphs; combinations of alignment, sizes, clamps, gaps, sort functions and boxes off the origin are not sampled.',
    ['packages/vgrammar-sankey/src/layout.ts', 'packages/vgrammar-sankey/src/transform.ts', 'packages/vgrammar-sankey/src/format.ts', 'packages/vgrammar-sankey/src/hierarchy.ts'],
    [m('SankeyLayout', 'packages/vgrammar-sankey/src/layout.ts'), m('calculateNodeValue', 'packages/vgrammar-sankey/src/hierarchy.ts'), m('formatLinkPath', 'packages/vgrammar-sankey/src/format.ts')], 'spec/Sankey.tla, SankeyMC.tla, SankeyTrace.tla',
    'TLC checks that the laws admit a layout for every data set and option combination of the bounded model and reject it once anything is displaced, and generates histories; those and seeded ones run on real views and every layout is judged against the laws.')
,
  P('M01', 'Axes, grids and legends show exactly what their scales and options imply',
'After every evaluation an axis, grid or legend shows the ticks, colours, shapes and extent of its current scale, the placement its coordinate (or the axis it follows) implies, and the current options and theme, whatever changed since the last one and in whatever order. The kind of component (straight or circular axis and grid; discrete, colour or size legend) is the one its scale and type ask for. Nothing is left over from an earlier scale, target, shape scale, coordinate, type or theme.',
['inputs', 'configurations', 'histories'], 'every sequence of changes to scales, coordinate, options, target and theme; cartesian and polar coordinates; all legend types',
'Components re-compute from many inputs through the dataflow; a missed dependency or a cached value only shows up in a particular order of changes.',
[C + 'component/axis.ts', C + 'component/grid.ts', C + 'component/legend.ts', C + 'component/scale.ts', C + 'view/component.ts'],
[m('generateCoordinateAxisAttribute', C + 'component/axis.ts'), m('Grid', C + 'component/grid.ts'), m('generateDiscreteLegendAttributes', C + 'component/legend.ts'), m('ScaleComponent.scale', C + 'component/scale.ts')],
'spec/Guide.tla, GuideMC.tla, GuideTrace.tla',
'TLC explores bounded histories (a picture computed from the laws is accepted and any stale part is rejected); generated and random histories are replayed on views and the attributes of the drawn components are validated against the spec.')
,
  P('M02', 'Labels, titles and control components show their data, sizes and options',
'After every evaluation a title shows its texts, a slider its extent, a player its source, a data zoom the preview of its data through its scales (and the value a handle stands for), a scrollbar lies on the side of its container its direction and position imply, and a label carries one text per datum of each target, in order, with the style of that target. All of it reflects the data, scales, group sizes, signals, options and theme of that moment, however they changed before.',
['inputs', 'configurations', 'histories'], 'every sequence of changes to data, scales, group sizes, signals, options, targets and theme',
'Tests create each component once with fixed options; updates, signals, targets, containers and themes are not combined.',
[C + 'component/label.ts', C + 'component/title.ts', C + 'component/slider.ts', C + 'component/scrollbar.ts', C + 'component/player.ts', C + 'component/datazoom.ts', C + 'view/component.ts'],
[m('generateLabelAttributes', C + 'component/label.ts'), m('generateScrollbarAttributes', C + 'component/scrollbar.ts'), m('Datazoom', C + 'component/datazoom.ts'), m('Player', C + 'component/player.ts')],
'spec/Gadget.tla, GadgetMC.tla, GadgetTrace.tla',
'TLC explores bounded histories (what the laws ask for is accepted, anything left over from an earlier state rejected); generated and random histories are replayed on views and the attributes of the drawn components are validated against the spec.')
,
  P('I02', 'Filter interactions show exactly the rows that their controls select',
'For every sequence of control events (discrete and continuous legends, sliders, data zooms, scrollbars, players, drill-downs, roll-ups), data changes and bound or removed interactions, a data set and every mark and data set derived from it show exactly the rows that pass the last value of each bound filter, combined by kind of control. A control only affects the filters bound to it and the data they target; taking a roll-up back or removing an interaction restores what it hid.',
['inputs', 'configurations', 'histories'], 'every sequence of binding, control events, removals and data changes over several controls and dependent data',
'No test drives the filter interactions; the tests of interactions cover element states only.',
[C + 'interactions/filter.ts', C + 'interactions/legend-filter.ts', C + 'interactions/slider-filter.ts', C + 'interactions/datazoom-filter.ts', C + 'interactions/scrollbar-filter.ts', C + 'interactions/player-filter.ts', C + 'interactions/drill-down.ts', C + 'interactions/roll-up.ts', C + 'view/data.ts', C + 'view/View.ts'],
[m('FilterMixin._filterData', C + 'interactions/filter.ts'), m('Data._evaluateFilter', C + 'view/data.ts'), m('RollUp', C + 'interactions/roll-up.ts'), m('View.removeInteraction', C + 'view/View.ts')],
'spec/Sift.tla, SiftMC.tla, SiftTrace.tla',
'TLC explores bounded histories (binding order irrelevant between kinds, removal restores, filters stay local); generated and random histories are replayed on views with the real controls and the shown rows are validated against the spec.')
,
  P('B01', 'A plot draws its semantic marks from one set of shared scales',
'After any sequence of adding semantic marks, changing their encodings, scale options, styles, data or coordinate, resizing and running, every graphic of the plot lies where the shared scales of its channels and the type of its mark put it: intervals stand on the zero line and are dodged by group, lines and areas follow their rows in order, rects and rules span the box. Channels with the same scale id share one scale whose domain covers the fields of all marks using it; a mark with scales and data of its own does not move any other.',
['inputs', 'configurations', 'histories'], 'every sequence of mark additions, channel, scale, style, data, coordinate and size changes over several marks',
'No test runs a plot; the plot package has no unit test of its semantic marks.',
['packages/vgrammar-plot/src/plot.ts', 'packages/vgrammar-plot/src/semantic-mark.ts', 'packages/vgrammar-plot/src/interval.ts', 'packages/vgrammar-plot/src/line.ts', 'packages/vgrammar-plot/src/area.ts', 'packages/vgrammar-plot/src/symbol.ts', 'packages/vgrammar-plot/src/text.ts', 'packages/vgrammar-plot/src/cell.ts', 'packages/vgrammar-plot/src/rect.ts', 'packages/vgrammar-plot/src/rect-x.ts', 'packages/vgrammar-plot/src/rect-y.ts', 'packages/vgrammar-plot/src/rule.ts', 'packages/vgrammar-plot/src/rule-x.ts', 'packages/vgrammar-plot/src/rule-y.ts', C + 'semantic-marks/interval.ts'],
[m('PlotBase._mergeScales', 'packages/vgrammar-plot/src/plot.ts'), m('SemanticMark.toViewSpec', 'packages/vgrammar-plot/src/semantic-mark.ts'), m('IntervalSemanticMark', 'packages/vgrammar-plot/src/interval.ts')],
'spec/Plot.tla, PlotMC.tla, PlotTrace.tla',
'TLC explores bounded histories of plots (picture unique, owned marks independent, shared positions, transposed plot mirrored); generated and random histories are replayed on real plots and the drawn graphics are validated against the spec, which computes the scales with Scale.tla.')
,
  P('Y01', 'Glyphs draw their parts as the channels of their elements say',
'Every part of a composite mark (box plots, bar box plots, violins, ripples, waves, link and tree paths, and glyphs a user registers) is placed, sized and styled as the channels of its element imply: the encoding of its datum overridden by its active states, for the direction the mark is configured with. This holds after any change of the data, the direction, the encoding, the scales or the states, and once the animations of such a change are over. A state that is cleared, or whose data changed, leaves nothing behind, and an element no one touched keeps its parts.',
['inputs', 'configurations', 'histories'], 'every data set, direction and channel values of each kind of glyph, and every sequence of data, direction, encoding, scale and state changes',
'Tests snapshot one static encoding of a few glyphs; the parts are updated incrementally, so they depend on the history of states and encodings.',
[C + 'graph/glyph-element.ts', C + 'view/glyph-meta.ts', C + 'view/glyph.ts', C + 'glyph/boxplot.ts', C + 'glyph/violin.ts', C + 'glyph/ripple.ts', C + 'glyph/wave.ts', C + 'glyph/link-path.ts', C + 'glyph/tree-path.ts'],
[m('_onGlyphAttributeUpdate derives the parts from an attribute change', C + 'graph/glyph-element.ts'), m('encodeCustom runs function and channel encoders', C + 'graph/glyph-element.ts'), m('getStateAttrs evaluates and caches states', C + 'graph/glyph-element.ts')],
'spec/Glyph.tla, GlyphMC.tla, GlyphTrace.tla',
'TLC explores bounded histories of every kind of glyph (a transposed glyph is drawn transposed, states leave no trace, only the touched element changes); generated and random histories are replayed on real glyph marks and every attribute of every part is compared with the spec. Left out: states on the position of a box plot or on channels its encoding lacks (other than sizes), arrows of links that run backwards.')
,
  P('I03', 'Crosshairs and tooltips tell what is under the pointer', 'A crosshair marks the category whose band the pointer is in, around the middle of that band and one step wide, or the pointer itself on a continuous scale, across its container wherever that lies, and is shown exactly while the last pointer event of its kind was inside the container and it has not been triggered off since. A tooltip shows, at the pointer, the title and the rows its options give for the datum of the element under the pointer, or for all data that answer to the value of the scale at the pointer, and nothing of an earlier datum. This holds after every history of moves, leaves, changes of data and scales, bindings and removals, also when throttled calls come late.', ['inputs', 'schedules', 'histories'],
 'The pointer over a container in polar or cartesian scales; what every bound interaction shows after each event is compared with what the last events ask for.',
 'Pointer paths, time gaps below the throttle, containers off the origin, paddings and reversed ranges combine; unit tests of the repository have none of them.',
 [C + 'interactions/crosshair.ts', C + 'interactions/tooltip.ts', C + 'interactions/dimension-tooltip.ts', C + 'interactions/base-tooltip.ts'],
 [m('computeCrosshairStartEnd', C + 'interactions/crosshair.ts'), m('generateRectCrosshairAttributes', C + 'interactions/crosshair.ts'), m('_computeTooltipRow', C + 'interactions/base-tooltip.ts'), m('handleTooltipShow', C + 'interactions/dimension-tooltip.ts')],
 'spec/Hover.tla, HoverMC.tla, HoverTrace.tla', 'TLC explores bounded histories (a marked category covers the pointer, tooltips agree with crosshairs, nothing is left after leaving); generated and random histories are replayed on real interactions. Left out: own rect sizes on discrete scales, own radii of radius crosshairs and data mutated in place.')
,
  P('O01', 'Mark transforms dodge, jitter, align and hide elements as options say',
'Where the elements of a mark are drawn after its dodge, jitter, symmetry and overlap transforms is a function of the current rows, scales, signals and options: dodged elements of one band stand side by side in the order of their groups, within the gaps and width limits; jittered ones stay within their share of the band around their place; aligned ones share their middle; an element is hidden exactly when it comes too close to the last one shown before it. Chained transforms each work on the result of the one before. No shift or hiding is left over or added up after changes of data, scales, signals, options or element states.',
['inputs', 'configurations', 'histories'], 'every chain of mark transforms with all their options over banded and free channels, and every sequence of data, scale, signal, option and state changes',
'The unit tests call each transform once with two elements; they run no view, chain nothing and change nothing.',
[C + 'transforms/mark/dodge.ts', C + 'transforms/mark/jitter.ts', C + 'transforms/mark/symmetry.ts', C + 'transforms/mark/mark-overlap.ts', C + 'view/mark.ts'],
[m('transform', C + 'transforms/mark/dodge.ts'), m('jitterByChannel', C + 'transforms/mark/jitter.ts'), m('symmetryByChannel', C + 'transforms/mark/symmetry.ts'), m('overlapXY', C + 'transforms/mark/mark-overlap.ts')],
'spec/Nudge.tla, NudgeMC.tla, NudgeTrace.tla',
'TLC explores bounded histories (dodged elements do not cover each other, jitter stays in its band, middles agree, shown neighbours keep their distance); generated and random histories are replayed on real views and the drawn graphics are validated against the spec.')
,
  P('I04', 'Brushes set states, rows and events for exactly the elements under them',
'While a brush is drawn or moved over marks, at every step exactly the elements under its mask carry the state of a brush-active, are highlighted while all others of the marks are blurred by a brush-highlight, or give their rows, or what a transform makes of them, to the target data of a brush-filter; the start, update, end and reset events tell the same elements. This holds for boxes, bands and polygons within the given ranges, for symbols and rects however their size is given, and after every history of brushes, data changes and other interactions. Clearing a brush or removing a filter brush shows all rows again, a cleared brush leaves no state behind, and a removed interaction reacts no more.',
['inputs', 'configurations', 'histories'], 'every sequence of brush gestures of all kinds over two marks with several brush interactions at once, data changes, bindings and removals',
'No test draws a brush; the tests of interactions cover element states set by pointer events on elements only.',
[C + 'interactions/brush-base.ts', C + 'interactions/brush-active.ts', C + 'interactions/brush-highlight.ts', C + 'interactions/brush-filter.ts', C + 'interactions/filter.ts'],
[m('isBrushContainGraphicItem', C + 'interactions/brush-base.ts'), m('BrushActive.handleBrushUpdate', C + 'interactions/brush-active.ts'), m('BrushHighlight.handleBrushUpdate', C + 'interactions/brush-highlight.ts'), m('BrushFilter.handleBrushUpdate', C + 'interactions/brush-filter.ts')],
'spec/Brush.tla, BrushMC.tla, BrushTrace.tla',
'TLC explores bounded histories of brushes (exactly the elements under the last mask, nothing left after a clear, a wider box covers more); generated and random pointer gestures run on real views and every step a brush reports is validated against the spec.')
,
  P('I05', 'Zoom, drag, scroll and roam move one window of the view per dimension',
'Each view navigation keeps for every enabled dimension one window inside [0, 1]: a zoom gesture scales it about its middle by the gesture\'s factor, drags and scrolls move it by the pointer\'s travel over the size of the dimension without changing its width or passing an end, at once or, when not realtime, as a whole when the gesture ends, and a reset shows the whole again. After every gesture the scale\'s range factor, the rows a data target shows, the linked component, and the range told to listeners are exactly that window. A gesture belongs to the pointer that began it, other gestures move nothing, and a removed navigation gives its windows back and hears nothing more.',
['inputs', 'configurations', 'histories'], 'every sequence of wheel and pointer gestures over every kind of dimension (scale, scale with a factor, filtered rows, own range, range function, data zoom, scrollbar)',
'No test binds a view navigation; the existing tests of interactions cover element states set by pointer events only.',
[C + 'interactions/view-navigation-base.ts', C + 'interactions/view-zoom.ts', C + 'interactions/view-zoom-mixin.ts', C + 'interactions/view-drag.ts', C + 'interactions/view-drag-mixin.ts', C + 'interactions/view-scroll.ts', C + 'interactions/view-scroll-mixin.ts', C + 'interactions/view-roam.ts', C + 'interactions/view-utils.ts'],
[m('updateZoomRange', C + 'interactions/view-zoom-mixin.ts'), m('updateScrollRange, handleScrolling', C + 'interactions/view-utils.ts'), m('ViewDragMixin', C + 'interactions/view-drag-mixin.ts'), m('ViewNavigationBase._initStateByDim', C + 'interactions/view-navigation-base.ts')],
'spec/ViewNav.tla, ViewNavMC.tla, ViewNavTrace.tla',
'TLC explores bounded gesture histories (a move keeps the width, a zoom the middle, two moves go as far as one, nothing moves unasked, what was put off is done once); generated histories run on real views and every step is validated against the spec.')
,
  P('A02', 'Built-in entrance and exit animations start and end where they say',
'An element that enters is first drawn at the collapsed geometry its animation type and options describe (the middle, an edge, a common value, the far side of the group, no opacity, no scale, a whole turn, a given point) and moves to exactly its own geometry; channels the animation is not for are final from the first frame. An element that leaves moves from its own geometry to the same collapsed geometry of the exit animation, whatever it was doing before, and is gone at the end. An element that changes moves linearly from its old to its new attributes with the update animation and jumps without it.',
['inputs', 'configurations', 'histories'], 'every built-in animation type on every mark it is for, with every combination of its options and every order of entering, changing and leaving elements',
'No existing test runs a built-in animation type; animations are only parsed in unit tests.',
[C + 'graph/animation/animation/grow-cartesian.ts', C + 'graph/animation/animation/grow-polar.ts', C + 'graph/animation/animation/grow-interval.ts', C + 'graph/animation/animation/grow-points.ts', C + 'graph/animation/animation/move.ts', C + 'graph/animation/animation/scale.ts', C + 'graph/animation/animation/rotate.ts', C + 'graph/animation/animation/fade.ts', C + 'graph/animation/animation/clip.ts', C + 'graph/animation/animation/update.ts', C + 'graph/animation/attribute.ts'],
[m('growWidthIn, growCenterIn, ...', C + 'graph/animation/animation/grow-cartesian.ts'), m('growPointsIn, ...', C + 'graph/animation/animation/grow-points.ts'), m('typeAnimationAttributes', C + 'graph/animation/attribute.ts'), m('Element.getFinalAnimationAttribute', C + 'graph/element.ts')],
'spec/Motion.tla, MotionMC.tla, MotionTrace.tla',
'TLC explores every type, option set and bounded order of rows (what has collapsed has no extent, only the animation\'s own channels move, collapsing is idempotent); generated histories run on real views and what is drawn at every quarter of the animations is validated against the spec.')
,
  P('I06', 'The sankey highlight shows exactly what flows through node or link',
'Pointing at a node or link of a sankey chart puts it and everything linked to it - its neighbours, or with effect "related" all that flows into or out of it - in the highlight state and every other node and link in the blur state. With hierarchical data a link carries as its ratio exactly the part of its value that belongs to that flow; without, the whole. Pointing elsewhere moves the highlight, leaving the element that stands out takes all states and ratios back, and leaving any other element changes nothing.',
['inputs', 'histories', 'configurations'], 'every graph or hierarchy of nodes and links, every order of pointing at, leaving and changing data, both effects',
'No existing test drives the sankey highlight at all.',
['packages/vgrammar-sankey/src/sankey-highlight.ts', C + 'graph/element.ts'],
[m('highlightRelatedElement, highlightRelatedBySourceTarget, parseUpstreamLinks', 'packages/vgrammar-sankey/src/sankey-highlight.ts'), m('Element.addState with attributes', C + 'graph/element.ts')],
'spec/Flow.tla, FlowMC.tla, FlowTrace.tla',
'TLC explores small graphs and trees (parts are parts, ends of highlighted links stand out, relatedness is symmetric, a node\'s flow is whole at every level above it); generated charts and histories run on real views with rect and linkPath marks and every element\'s states and ratio are validated against the spec.')
,
  P('I07', 'A fish-eye distorts its own scales around the pointer and gives them back',
'From its start event to its end a fish-eye distorts exactly the scales of its enabled dimensions with its own distortion and radius around the pointer: what lies at the pointer stays, what lies within the radius is pushed outwards in order and never past it, everything else stays. It follows the pointer over its marks or the view, and the end event, the event that triggers it off or its removal gives the scales back as they were, their range factors untouched, so that it can start again anywhere. Events on anything else change nothing.',
['inputs', 'histories', 'configurations'], 'every set of options, every order of starting, moving, ending, removing, binding again and data changes',
'No existing test runs a fish-eye.',
[C + 'interactions/fish-eye.ts', C + 'view/scale.ts'],
[m('FishEye.updateView, handleStart, handleEnd, handleReset, unbind', C + 'interactions/fish-eye.ts'), m('Scale.setFishEye, evaluate', C + 'view/scale.ts')],
'spec/Lens.tla, LensMC.tla, LensTrace.tla',
'TLC explores every order of events with the option sets; generated histories run on real views and every row\'s drawn position and the setting the scales tell are validated after every event (the distortion between pointer and radius is bounded and ordered, its formula is a dependency\'s).')
];
const na = [];
module.exports = { defs, na, m, P, C };
