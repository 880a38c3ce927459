#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is its output)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[dict(zip(("name","meaning","where"),s)) for s in state],
        "mechanism":[dict(zip(("name","where"),m)) for m in mech],
        "observe_at":list(observe),"hook_needed":hook}})
T="src/task/"
p("C01","Rewriting path data never changes the drawn outline",
  "Whatever sequence of path commands a path holds, and whichever path-related options are on, the path written to the output draws the same outline as the input path: the same subpaths in the same order, the same non-degenerate lines, curves and arcs, each open or closed as before. Only segments that draw nothing may disappear, and a path that carries markers keeps all of its vertices.",
  ["inputs","configurations"],"All command sequences (M L H V C S Q T A Z, absolute and relative, degenerate and not, multiple subpaths) x all path/write options",
  "Unit tests convert about 60 hand-picked paths; the state carried between segments (current point, subpath start, previous control point, previous command) makes sequences interact.",
  [T+"paths/mod.rs",T+"paths/conv_segments.rs",T+"paths/rm_unused.rs",T+"paths/apply_transform.rs","src/cli.rs"],
  [("absolute/relative conversion, segment shortening and removal",T+"paths/mod.rs process_paths"),("curve to line / shorthand conversion",T+"paths/conv_segments.rs"),("removal of segments that draw nothing",T+"paths/rm_unused.rs")],
  [("segment list","current path data while it is rewritten",T+"paths/mod.rs")],["d attribute of the output document, interpreted by an independent path interpreter"])
p("C02","A basic shape converted to a path draws the same outline",
  "Every line, rect, polyline and polygon in the input still draws the same outline with the same painting in the output, whether or not it was turned into a path, and circles, ellipses and rounded rectangles keep their outline. No shape gains or loses markers, a vertex or its closedness by the conversion, and shapes with missing, zero, negative, percent or unit-bearing values are treated as SVG prescribes.",
  ["inputs","configurations"],"All shape elements x attribute presence/value/unit grids x conversion-related options",
  "Tests convert a dozen shapes with plain numbers; value, unit, missing-attribute and marker combinations are not covered.",
  [T+"conv_shapes.rs",T+"fix_attrs.rs",T+"rm_unused_coords.rs",T+"rm_default_attrs.rs",T+"rm_invisible_elems.rs"],
  [("shape to path conversion",T+"conv_shapes.rs"),("invalid attribute repair",T+"fix_attrs.rs"),("default/duplicated coordinate removal",T+"rm_unused_coords.rs")],
  observe=["outline of each drawn element of the output in device space"])
p("C03","Moving or applying transforms keeps every element where and as big as it was",
  "For every tree of groups and drawn elements with transforms, the output places each outline, stroke pen, dash pattern, text, image and referenced content at the same position, size and orientation in the document's coordinate system as the input. This holds whether the transform was kept, simplified, merged, moved between group and children, or applied to coordinates and stroke properties.",
  ["inputs","configurations"],"All nestings up to a bound x transform lists (translate, scale incl. negative and non-uniform, rotate, skew, matrix) x stroke/paint context x transform options",
  "Tests check a few transforms on isolated elements; correctness needs the combination of ancestors' transforms, inherited stroke properties and paint context.",
  [T+"apply_transforms/shapes.rs",T+"paths/apply_transform.rs",T+"apply_transforms/preproc.rs",T+"apply_transforms/mod.rs",T+"ungroup_groups.rs",T+"group_by_style.rs",T+"rm_default_transform.rs"],
  [("apply transform to shapes/paths and rescale stroke",T+"apply_transforms/"),("push group transforms to children",T+"ungroup_groups.rs"),("hoist common transforms to a group",T+"group_by_style.rs")],
  observe=["device-space geometry, pen matrix and dash of every drawn element"])
p("C04","Every drawn element keeps its effective presentation properties",
  "For every drawn element the painting-relevant properties computed by SVG's cascade and inheritance (paint, opacity, stroke style, fill rule, visibility, rendering hints and so on) are the same in the output as in the input. Creating groups, dissolving groups, dropping default or needless attributes, resolving 'inherit' and 'currentColor', and joining attributes into a style attribute never change a computed value that affects drawing.",
  ["inputs","configurations"],"All small trees x placements of presentation properties (attribute, style, inherit, currentColor, default values, via use) on every level x attribute/group options",
  "Tests sample a handful of trees per task; the cascade makes removal of one attribute depend on all ancestors, referencing elements and the tasks that ran before.",
  [T+"group_by_style.rs",T+"ungroup_groups.rs",T+"rm_default_attrs.rs",T+"rm_needless_attrs.rs",T+"resolve_inherit.rs",T+"join_style_attrs.rs",T+"group_defs.rs"],
  [("grouping by shared attributes",T+"group_by_style.rs"),("ungrouping",T+"ungroup_groups.rs"),("default/needless attribute removal",T+"rm_default_attrs.rs, "+T+"rm_needless_attrs.rs"),("inherit resolution",T+"resolve_inherit.rs"),("style joining",T+"join_style_attrs.rs")],
  observe=["computed style of each drawn element"])
p("C05","Gradients keep painting the same colours at the same places",
  "For every gradient (with its stops, units, transform, spread method and chain of referenced gradients) used as fill or stroke, each point of the painted element gets the same colour and opacity from the output document as from the input document. Merging, de-duplicating, regrouping, simplifying or inlining gradients and dropping stops or attributes never changes that.",
  ["inputs","configurations"],"All gradient definitions over a value grid x reference chains up to three x pairs/triples of gradients x users x gradient options",
  "Tests compare serialized output for about 40 inputs; equality of the resulting paint function over chains and pairs of gradients is never evaluated.",
  [T+"resolve_gradients.rs",T+"merge_gradients.rs",T+"regroup_gradient_stops.rs",T+"rm_dupl_defs/linear_gradient.rs",T+"rm_dupl_defs/radial_gradient.rs",T+"rm_gradient_attrs.rs",T+"rm_invalid_stops.rs",T+"rm_invisible_elems.rs",T+"fix_attrs.rs",T+"apply_transforms/gradients.rs"],
  [("href attribute resolution",T+"resolve_gradients.rs"),("merge/dedupe",T+"merge_gradients.rs"),("single/zero stop gradients to solid colour",T+"rm_invisible_elems.rs")],
  observe=["paint function (device-space geometry, stop ramp, spread) of each painted element"])
p("C06","References stay intact and ids stay unique",
  "In every output document each id occurs once, and every reference (href or url()) that resolved in the input and is still needed resolves to the counterpart of the same target, never to another element and never to nothing. Shortened ids are valid, distinct, and consistent with all their references no matter how many ids there are; an id is only dropped if nothing references it.",
  ["inputs","configurations"],"All reference graphs up to a bound (kinds of reference x kinds of target x shared/nested/forward/colliding names), id populations past every rollover of the short-name alphabet, x id options",
  "Tests rename a few ids; collisions between new and old names, rollovers of the name generator and references hidden in shared definitions need enumeration.",
  [T+"trim_ids.rs",T+"rm_unref_ids.rs",T+"group_defs.rs",T+"ungroup_defs.rs",T+"rm_unused_defs.rs",T+"regroup_gradient_stops.rs"],
  [("id shortening",T+"trim_ids.rs"),("unreferenced id removal",T+"rm_unref_ids.rs"),("generated gradient names",T+"regroup_gradient_stops.rs")],
  observe=["id and reference attributes of the output"])
p("C07","Exactly the visible elements survive, in the same paint order",
  "Every element that paints something in the input, directly or through use, symbol, nested svg, marker, pattern, clip or mask content, paints the same thing in the output, in the same order, and nothing that was not painted becomes painted. Removal of unused definitions, invisible elements, empty containers, and the rearrangement of definitions and resolution of use elements respect this for every document.",
  ["inputs","configurations"],"All small trees over containers, definitions, use/symbol/svg/switch/a, invisible and visible leaves x structure options",
  "Tests cover removal rules one at a time; whether something is visible depends on how it is referenced, nested and ordered.",
  [T+"rm_invisible_elems.rs",T+"rm_unused_defs.rs",T+"resolve_use.rs",T+"group_defs.rs",T+"ungroup_defs.rs",T+"ungroup_groups.rs",T+"rm_elems.rs"],
  [("invisible element removal",T+"rm_invisible_elems.rs"),("unused definition removal",T+"rm_unused_defs.rs"),("use resolution",T+"resolve_use.rs"),("definition grouping",T+"group_defs.rs")],
  observe=["ordered list of drawn elements"])
p("C08","Text keeps its characters, layout attributes and text properties",
  "Every text element in the output shows the same characters with the same significant whitespace, the same per-character positions and rotations, and the same font, spacing, anchoring, decoration, direction and baseline properties on every run of characters as in the input. Text properties are dropped only where no text can use them, including text reached through groups, use and definitions.",
  ["inputs","configurations"],"All text/tspan/tref trees up to a bound x text content with whitespace and special characters x xml:space x text attributes on every level x options",
  "Tests check attribute removal on a few flat trees and never the resulting text layout.",
  [T+"rm_text_attrs.rs",T+"rm_default_attrs.rs",T+"group_by_style.rs",T+"ungroup_groups.rs",T+"join_style_attrs.rs",T+"round_numbers.rs"],
  [("text attribute removal",T+"rm_text_attrs.rs")],
  observe=["character runs with computed text properties"])
p("C09","Content the cleaner cannot handle is refused, and only such content",
  "A document containing scripts, event handlers, animation, conditional processing attributes or references to external objects where these are unsupported is rejected with an error and no cleaned output is produced; likewise for values that cannot be resolved. A document without any of these is never rejected for them, whatever the options and wherever in the tree the content is.",
  ["inputs","configurations"],"All unsupported elements/attributes/href kinds x positions in the tree x host elements x options, and their supported look-alikes",
  "Tests check each refusal at one position with one host element.",
  [T+"preclean_checks.rs",T+"resolve_inherit.rs",T+"resolve_gradients.rs","src/error.rs","src/main.rs"],
  [("pre-clean checks",T+"preclean_checks.rs"),("unresolvable attribute errors",T+"resolve_inherit.rs")],
  observe=["error result of cleaning, exit output of the tool"])
p("C10","A disabled option leaves its subject untouched",
  "When an option is off, the kind of content or rewriting it controls stays as it was in the input, in every document: comments, declarations, non-SVG content, title/desc/metadata, version, ids, transforms, shapes, path commands, groups, definitions, gradients, text attributes and defaults. In particular a run with every option off only normalizes, and turning one option on affects only what that option documents.",
  ["configurations","inputs"],"Every option toggled from all-off and from all-on x documents containing each option's subject in several forms",
  "Tests run each task in isolation, never the option wiring or that other tasks leave an option's subject alone.",
  ["src/cleaner.rs","src/cli.rs","src/options.rs",T+"mod.rs"],
  [("option gating of each task","src/cleaner.rs clean_doc"),("option resolution","src/cli.rs")],
  observe=["presence of the subject in the output"])
p("C11","The output is well-formed SVG that the cleaner itself accepts",
  "For every accepted well-formed input and every option set the output is a well-formed XML document with one svg root in the SVG namespace, every used prefix declared, no duplicated attributes, all special characters escaped, and syntactically valid attribute values. Cleaning that output again succeeds.",
  ["inputs","configurations","histories"],"All generated documents incl. special characters, prefixes, empty roots x write options x re-cleaning",
  "Tests compare strings on small samples and never re-parse or re-clean results.",
  ["src/cleaner.rs",T+"final_fixes.rs",T+"join_style_attrs.rs",T+"rm_elems.rs"],
  [("namespace fixing",T+"final_fixes.rs"),("writer options","src/cli.rs gen_write_options")],
  observe=["bytes of the output"])
p("C12","Repeated cleaning settles and keeps the picture",
  "Cleaning an already cleaned document, any number of times and with any mixture of option sets, still draws the same picture, and repeated cleaning with the same options reaches a state in which sizes no longer change. The multipass mode therefore always terminates, and its result draws the same picture as the input and is never bigger than a single pass result.",
  ["histories","inputs","configurations"],"All chains of cleaning runs up to a depth from a corpus covering every task x option sets",
  "No test cleans a document twice.",
  ["src/main.rs","src/cleaner.rs",T+"regroup_gradient_stops.rs",T+"group_by_style.rs",T+"ungroup_groups.rs"],
  [("multipass loop","src/main.rs")],
  [("buffer size of the previous pass","loop exit condition","src/main.rs prev_size")],
  observe=["sequence of outputs of successive runs"])
p("C13","Command line options mean what the documentation says",
  "Every combination of command line arguments either is rejected with a message before any file is touched, or selects exactly the documented behaviour: documented defaults, explicit values in every accepted spelling, only explicitly given options under --no-defaults, documented dependencies between options, value ranges, and file/stdin/stdout selection. No option influences another one's setting.",
  ["configurations"],"Every option x every accepted and some unaccepted values, alone and in pairs, with and without --no-defaults x every in/out argument form",
  "Eleven tests check a handful of argument lists.",
  ["src/cli.rs","src/options.rs","src/main.rs","data/help.txt","docs/svgcleaner.rst"],
  [("argument declaration and resolution","src/cli.rs")],
  observe=["effective parse/cleaning/write options; behaviour of the executable"])
p("C14","A failed run never damages files",
  "When cleaning fails for any reason (missing or unreadable input, invalid UTF-8, malformed or unsupported document, result too big, rejected arguments) the input file is unchanged and the output file is either untouched or, when copy-on-error was requested and the paths differ, an exact copy of the input; nothing is written to standard output. A failure is always reported on standard error.",
  ["fault_sequences","configurations","histories"],"All failure kinds x in/out path relations (same, different, existing, missing, stdin, stdout) x option combinations x passes",
  "No test runs the executable.",
  ["src/main.rs","src/cleaner.rs"],
  [("error handler","src/main.rs on_err"),("save only after success","src/main.rs")],
  [("output file","destination given by the user","src/main.rs")],
  observe=["file contents, stdout, stderr and exit status after a run"])
p("C15","Input and output faults are survived or reported, never silently truncated",
  "For every pattern of short reads, short writes, interrupted calls and failing calls while reading the input or writing the result, the run either ends with exactly the complete correct output or reports an error. It never reports success after having written a partial or different result, and never loops forever.",
  ["fault_sequences"],"All placements of up to two faults (short/interrupted/failing read, write, open, close) along the run's system call sequence x input/output route",
  "No test injects an I/O fault.",
  ["src/cleaner.rs","src/main.rs"],
  [("read_to_string/write_all","src/cleaner.rs load_file load_stdin save_file write_stdout")],
  observe=["destination bytes, stderr"])
p("C16","The result is never bigger than the input unless allowed",
  "Unless bigger files are explicitly allowed, a run writes a result only if it is not bigger than the input (apart from a requested trailing newline); otherwise it reports this as an error and writes nothing. With bigger files allowed the result is always written; the decision is exact at the boundary, also after several passes.",
  ["inputs","configurations"],"All documents around the size boundary (smaller, equal, bigger by one) x allow-bigger-file, append-newline, multipass, copy-on-error, output routes",
  "No test runs the executable or the size check.",
  ["src/main.rs"],[("size check","src/main.rs")],observe=["written bytes versus input size"])
p("C17","Rounding respects the requested precision",
  "With a precision of N digits set for coordinates, properties, path coordinates or transforms, every number of that class in the output is within half a unit of the N-th decimal digit of the exact value, has at most N decimal digits where nothing was recomputed, and numbers of other classes are unaffected. Each number is rounded on its own: rounding one never changes another, and a number already within the precision stays as it is.",
  ["inputs","configurations"],"All precisions 1..12 x number classes x values around rounding boundaries x path lengths",
  "Tests use one precision and a few values.",
  [T+"round_numbers.rs",T+"paths/mod.rs",T+"apply_transforms/preproc.rs","src/cli.rs"],
  [("rounding per attribute class",T+"round_numbers.rs")],observe=["numeric attribute values"])
p("C18","Cleaning is a deterministic function of document and options",
  "The same document and the same options give byte-identical results in every run, in every process, and through every route (file to file, file to stdout, stdin to stdout, stdin to file, overwriting the input), regardless of environment, working directory or documents cleaned before. Equivalent spellings of options give identical results.",
  ["histories","configurations"],"All routes x repeated runs x corpus; all orders of cleaning documents in one process up to a bound",
  "Tests never compare two runs or two routes.",
  ["src/main.rs","src/cleaner.rs","src/cli.rs"],[("route selection","src/cli.rs input/output"),("ordered iteration of document",T+"")],observe=["output bytes"])
p("C19","Every input ends in a result or a reported error, without crash or hang",
  "For every input text, valid or not, and every option set, the run finishes in bounded time and memory with either a result or an error message. It never panics, overflows the stack, or loops, whatever the combination of missing, malformed, extreme, cyclic or misplaced content.",
  ["inputs","configurations"],"All small documents over elements x attributes x malformed/extreme/cyclic values, nesting up to a bound, x options",
  "Tests use well-formed benign inputs only.",
  ["src/cleaner.rs","src/main.rs",T+"mod.rs",T+"resolve_gradients.rs",T+"resolve_use.rs",T+"group_by_style.rs"],
  [("error returns","src/error.rs")],observe=["termination, panic, exit status"])
p("C20","Output formatting options change only the spelling",
  "Indentation, list separator, colour trimming, path trimming, arc flag joining, duplicate and implicit path commands, transform simplification and style joining change only how values are spelled: for every document all formatting choices denote the same tree with the same attribute values, and each choice is applied as requested.",
  ["configurations","inputs"],"All combinations of formatting options x documents with every kind of value",
  "The tests never vary write options.",
  ["src/cli.rs","src/cleaner.rs",T+"join_style_attrs.rs"],
  [("write option mapping","src/cli.rs gen_write_options"),("style joining",T+"join_style_attrs.rs")],observe=["values parsed back from the output"])
p("C21","Clips, masks, filters, markers, patterns and opacity keep their effect",
  "Every clip path, mask, filter, marker, pattern and opacity that affects a drawn element or group in the input has the same effect on the same content in the output, with the same region, units and own content, and none is added, lost or moved to other content. An effect that makes content disappear keeps making exactly that content disappear.",
  ["inputs","configurations"],"All nestings of effects over groups and elements x effect definitions (empty, single, nested, units, shared, duplicated) x options",
  "Tests cover isolated removal rules, not the compositing result.",
  [T+"rm_invisible_elems.rs",T+"ungroup_groups.rs",T+"group_by_style.rs",T+"rm_dupl_defs/fe_gaussian_blur.rs",T+"group_defs.rs",T+"rm_needless_attrs.rs"],
  [("invalid/empty effect removal",T+"rm_invisible_elems.rs"),("blur filter de-duplication",T+"rm_dupl_defs/fe_gaussian_blur.rs"),("link-aware ungrouping",T+"ungroup_groups.rs")],observe=["effect stack around each drawn element"])
p("C22","An enabled cleaning option does what it documents on every document",
  "When an option is on, its documented result holds for the whole output: no title/desc/metadata/comments/declarations/version/foreign content is left, no unused definitions, unreferenced ids, duplicate gradients or filters, removable groups, default attributes, useless stops, or convertible shapes and transforms remain anywhere in the document. The result holds regardless of nesting, order and the number of occurrences.",
  ["inputs","configurations"],"All placements and multiplicities of each option's subject in small trees x the option on",
  "Tests put one or two subjects at fixed places.",
  ["src/cleaner.rs",T+"rm_elems.rs",T+"rm_unref_ids.rs",T+"rm_version.rs",T+"rm_unused_defs.rs",T+"final_fixes.rs"],
  [("tasks gated by options","src/cleaner.rs clean_doc")],observe=["absence of the subject in the output"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
