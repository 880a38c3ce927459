//! C13: the command line. A reference model of the documented command line decides for every
//! argument vector whether it is rejected or which options it selects; the model is compared with
//! the option structures the tool builds and with runs of the real executable.
use crate::bin::*;
use crate::engine::*;
use crate::fam::{product, radix, BOOLS};
use std::collections::BTreeMap;
use svgcleaner::{cli, CleaningOptions, ParseOptions, StyleJoinMode, WriteOptions};
use svgdom::{AttributesOrder, Indent, ListSeparator};

const SWITCHES: &[&str] = &["no-defaults", "multipass", "allow-bigger-file", "copy-on-error", "quiet", "stdout"];
const PREC: &[(&str, &str)] = &[
    ("coordinates-precision", "6"),
    ("properties-precision", "6"),
    ("transforms-precision", "8"),
    ("paths-coordinates-precision", "8"),
];
const VALUED: &[(&str, &[&str], &str)] = &[
    ("join-style-attributes", &["no", "some", "all"], "some"),
    ("list-separator", &["space", "comma", "comma-space"], "space"),
    ("indent", &["none", "0", "1", "2", "3", "4", "tabs"], "none"),
];

pub fn flags() -> Vec<(&'static str, bool)> {
    let mut v = BOOLS.to_vec();
    v.push(("append-newline", false));
    v
}

/// What a command line means.
#[derive(Clone, PartialEq, Debug)]
pub struct Want {
    /// effective values of all options and switches
    pub set: BTreeMap<String, String>,
    pub input: String,
    pub output: String,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Meaning {
    Rejected,
    Info,
    Selects(Want),
    Undocumented,
}

/// The documented meaning of an argument vector.
pub fn model(args: &[String]) -> Meaning {
    let fl = flags();
    let mut explicit: BTreeMap<String, String> = BTreeMap::new();
    let mut sw: BTreeMap<String, bool> = BTreeMap::new();
    let mut pos: Vec<String> = vec![];
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        i += 1;
        if a == "-h" || a == "--help" || a == "-V" || a == "--version" {
            return if args.len() == 1 { Meaning::Info } else { Meaning::Undocumented };
        }
        if a == "-c" {
            if sw.insert("stdout".into(), true).is_some() {
                return Meaning::Rejected;
            }
            continue;
        }
        if let Some(o) = a.strip_prefix("--") {
            if o.is_empty() || o.starts_with('-') {
                return Meaning::Undocumented;
            }
            let (name, val) = match o.split_once('=') {
                Some((n, v)) => (n.to_string(), Some(v.to_string())),
                None => (o.to_string(), None),
            };
            if SWITCHES.contains(&name.as_str()) {
                if val.is_some() {
                    // silently ignored by the argument parser
                    return Meaning::Undocumented;
                }
                if sw.insert(name, true).is_some() {
                    return Meaning::Rejected;
                }
                continue;
            }
            let known = fl.iter().any(|f| f.0 == name) || PREC.iter().any(|f| f.0 == name) || VALUED.iter().any(|f| f.0 == name);
            if !known {
                return Meaning::Rejected;
            }
            let val = match val {
                Some(v) => v,
                None => {
                    if i >= args.len() || (args[i].starts_with('-') && args[i].len() > 1) {
                        // the argument parser then uses the default value
                        return Meaning::Undocumented;
                    }
                    i += 1;
                    args[i - 1].clone()
                }
            };
            if explicit.insert(name, val).is_some() {
                return Meaning::Rejected;
            }
            continue;
        }
        if a.starts_with('-') && a.len() > 1 {
            return Meaning::Rejected;
        }
        pos.push(a.clone());
    }
    let mut set = BTreeMap::new();
    let nodef = sw.contains_key("no-defaults");
    for f in &fl {
        let v = match explicit.get(f.0).map(|s| s.as_str()) {
            Some("true") | Some("yes") | Some("y") => true,
            Some("false") | Some("no") | Some("n") => false,
            Some(_) => return Meaning::Rejected,
            None => f.1 && !nodef,
        };
        set.insert(f.0.to_string(), v.to_string());
    }
    for p in PREC {
        let v = explicit.get(p.0).cloned().unwrap_or_else(|| p.1.to_string());
        if !(1..=12).any(|n: u8| n.to_string() == v) {
            return Meaning::Rejected;
        }
        set.insert(p.0.to_string(), v);
    }
    for q in VALUED {
        let v = explicit.get(q.0).cloned().unwrap_or_else(|| q.2.to_string());
        if !q.1.contains(&v.as_str()) {
            return Meaning::Rejected;
        }
        set.insert(q.0.to_string(), v);
    }
    for s in SWITCHES {
        set.insert(s.to_string(), sw.contains_key(*s).to_string());
    }
    let on = |n: &str| set[n] == "true";
    for (dep, on_what) in [
        ("join-arcto-flags", "trim-paths"),
        ("remove-unused-segments", "paths-to-relative"),
        ("convert-segments", "paths-to-relative"),
        ("apply-transform-to-paths", "paths-to-relative"),
    ] {
        if on(dep) && !on(on_what) {
            return Meaning::Rejected;
        }
    }
    let file = |s: &str| s.ends_with(".svg") || s.ends_with(".SVG");
    if pos.len() > 2 || pos.is_empty() || pos.iter().any(|p| p != "-" && !file(p)) {
        return Meaning::Rejected;
    }
    let (input, output) = match (on("stdout"), pos[0].as_str(), pos.get(1).map(|s| s.as_str())) {
        (true, p, None) => (p.to_string(), "-".to_string()),
        (true, p, Some(q)) if p != "-" && q != "-" => (p.to_string(), "-".to_string()),
        (false, _, None) => return Meaning::Rejected,
        (false, p, Some("-")) if p != "-" => ("-".to_string(), p.to_string()),
        (false, p, Some(q)) if p != "-" => (p.to_string(), q.to_string()),
        _ => return Meaning::Undocumented,
    };
    Meaning::Selects(Want { set, input, output })
}

/// The option structures with the documented content.
pub fn options(w: &Want) -> (ParseOptions, CleaningOptions, WriteOptions) {
    let on = |n: &str| w.set[n] == "true";
    let num = |n: &str| w.set[n].parse::<u8>().unwrap();
    let p = ParseOptions {
        parse_comments: !on("remove-comments"),
        parse_declarations: !on("remove-declarations"),
        parse_unknown_elements: !on("remove-nonsvg-elements"),
        parse_unknown_attributes: !on("remove-nonsvg-attributes"),
        parse_px_unit: false,
        skip_unresolved_classes: on("remove-unresolved-classes"),
        skip_invalid_attributes: false,
        skip_invalid_css: false,
        skip_paint_fallback: false,
    };
    let c = CleaningOptions {
        remove_unused_defs: on("remove-unused-defs"),
        convert_shapes: on("convert-shapes"),
        remove_title: on("remove-title"),
        remove_desc: on("remove-desc"),
        remove_metadata: on("remove-metadata"),
        remove_dupl_linear_gradients: on("remove-dupl-lineargradient"),
        remove_dupl_radial_gradients: on("remove-dupl-radialgradient"),
        remove_dupl_fe_gaussian_blur: on("remove-dupl-fegaussianblur"),
        ungroup_groups: on("ungroup-groups"),
        ungroup_defs: on("ungroup-defs"),
        group_by_style: on("group-by-style"),
        merge_gradients: on("merge-gradients"),
        regroup_gradient_stops: on("regroup-gradient-stops"),
        remove_invalid_stops: on("remove-invalid-stops"),
        remove_invisible_elements: on("remove-invisible-elements"),
        resolve_use: on("resolve-use"),
        remove_version: on("remove-version"),
        remove_unreferenced_ids: on("remove-unreferenced-ids"),
        trim_ids: on("trim-ids"),
        remove_text_attributes: on("remove-text-attributes"),
        remove_unused_coordinates: on("remove-unused-coordinates"),
        remove_default_attributes: on("remove-default-attributes"),
        remove_xmlns_xlink_attribute: on("remove-xmlns-xlink-attribute"),
        remove_needless_attributes: on("remove-needless-attributes"),
        remove_gradient_attributes: on("remove-gradient-attributes"),
        join_style_attributes: match w.set["join-style-attributes"].as_str() {
            "no" => StyleJoinMode::None,
            "some" => StyleJoinMode::Some,
            _ => StyleJoinMode::All,
        },
        apply_transform_to_gradients: on("apply-transform-to-gradients"),
        apply_transform_to_shapes: on("apply-transform-to-shapes"),
        paths_to_relative: on("paths-to-relative"),
        remove_unused_segments: on("remove-unused-segments"),
        convert_segments: on("convert-segments"),
        append_newline: on("append-newline"),
        apply_transform_to_paths: on("apply-transform-to-paths"),
        coordinates_precision: num("coordinates-precision"),
        properties_precision: num("properties-precision"),
        paths_coordinates_precision: num("paths-coordinates-precision"),
        transforms_precision: num("transforms-precision"),
    };
    let o = WriteOptions {
        indent: match w.set["indent"].as_str() {
            "none" => Indent::None,
            "tabs" => Indent::Tabs,
            n => Indent::Spaces(n.parse().unwrap()),
        },
        attributes_indent: Indent::None,
        use_single_quote: false,
        trim_hex_colors: on("trim-colors"),
        write_hidden_attributes: false,
        remove_leading_zero: true,
        use_compact_path_notation: on("trim-paths"),
        join_arc_to_flags: on("join-arcto-flags"),
        remove_duplicated_path_commands: on("remove-dupl-cmd-in-paths"),
        use_implicit_lineto_commands: on("use-implicit-cmds"),
        simplify_transform_matrices: on("simplify-transforms"),
        list_separator: match w.set["list-separator"].as_str() {
            "space" => ListSeparator::Space,
            "comma" => ListSeparator::Comma,
            _ => ListSeparator::CommaSpace,
        },
        attributes_order: AttributesOrder::Alphabetical,
    };
    (p, c, o)
}

fn join(j: &StyleJoinMode) -> &'static str {
    match *j {
        StyleJoinMode::None => "no",
        StyleJoinMode::Some => "some",
        StyleJoinMode::All => "all",
    }
}

/// Every field by name, for comparison.
fn fields(p: &ParseOptions, c: &CleaningOptions, o: &WriteOptions) -> Vec<(&'static str, String)> {
    macro_rules! f {
        ($s:expr, $($n:ident),*) => { vec![$((stringify!($n), format!("{}", $s.$n))),*] };
    }
    let mut v = f!(p, parse_comments, parse_declarations, parse_unknown_elements, parse_unknown_attributes, parse_px_unit,
        skip_unresolved_classes, skip_invalid_attributes, skip_invalid_css, skip_paint_fallback);
    v.extend(f!(c, remove_unused_defs, convert_shapes, remove_title, remove_desc, remove_metadata, remove_dupl_linear_gradients,
        remove_dupl_radial_gradients, remove_dupl_fe_gaussian_blur, ungroup_groups, ungroup_defs, group_by_style, merge_gradients,
        regroup_gradient_stops, remove_invalid_stops, remove_invisible_elements, resolve_use, remove_version, remove_unreferenced_ids,
        trim_ids, remove_text_attributes, remove_unused_coordinates, remove_default_attributes, remove_xmlns_xlink_attribute,
        remove_needless_attributes, remove_gradient_attributes, apply_transform_to_gradients, apply_transform_to_shapes,
        paths_to_relative, remove_unused_segments, convert_segments, append_newline, apply_transform_to_paths, coordinates_precision,
        properties_precision, paths_coordinates_precision, transforms_precision));
    v.push(("join_style_attributes", join(&c.join_style_attributes).to_string()));
    v.extend(f!(o, use_single_quote, trim_hex_colors, write_hidden_attributes, remove_leading_zero, use_compact_path_notation,
        join_arc_to_flags, remove_duplicated_path_commands, use_implicit_lineto_commands, simplify_transform_matrices));
    let ind = |i: Indent| match i {
        Indent::None => "none".to_string(),
        Indent::Spaces(n) => n.to_string(),
        Indent::Tabs => "tabs".to_string(),
    };
    v.push(("indent", ind(o.indent)));
    v.push(("attributes_indent", ind(o.attributes_indent)));
    v.push((
        "list_separator",
        match o.list_separator {
            ListSeparator::Space => "space",
            ListSeparator::Comma => "comma",
            ListSeparator::CommaSpace => "comma-space",
        }
        .to_string(),
    ));
    v.push(("attributes_order", (if o.attributes_order == AttributesOrder::Alphabetical { "abc" } else { "other" }).to_string()));
    v
}

fn show(v: &[(&'static str, String)]) -> String {
    v.iter().map(|f| format!("{}={}", f.0, f.1)).collect::<Vec<_>>().join(" ")
}

/// Compares the model with the structures the tool builds for this argument vector.
fn in_process(args: &[String]) -> Option<Scn> {
    let want = model(args);
    if want == Meaning::Undocumented {
        return None;
    }
    let mut s = Scn::new(args.join(" "), "command line".into());
    s.runs = 1;
    let mut v = vec!["svgcleaner".to_string()];
    v.extend_from_slice(args);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let m = match cli::prepare_app().get_matches_from_safe(&v) {
            Ok(m) => m,
            Err(e) => {
                return match e.kind {
                    clap::ErrorKind::HelpDisplayed | clap::ErrorKind::VersionDisplayed => ("info".to_string(), None),
                    _ => ("rejected".to_string(), None),
                }
            }
        };
        if !cli::check_values(&m) {
            return ("rejected".to_string(), None);
        }
        let f = fields(&cli::gen_parse_options(&m), &cli::gen_cleaning_options(&m), &cli::gen_write_options(&m));
        let sw: Vec<(&'static str, bool)> = SWITCHES
            .iter()
            .zip([
                cli::Key::NoDefaults,
                cli::Key::Multipass,
                cli::Key::AllowBiggerFile,
                cli::Key::CopyOnError,
                cli::Key::Quiet,
                cli::Key::Stdout,
            ])
            .map(|(n, k)| (*n, m.is_present(cli::KEYS[k])))
            .collect();
        let i = match cli::input(&m) {
            cli::InputFrom::Stdin => "-".to_string(),
            cli::InputFrom::File(f) => f.to_string(),
        };
        let o = match cli::output(&m) {
            cli::OutputTo::Stdout => "-".to_string(),
            cli::OutputTo::File(f) => f.to_string(),
        };
        ("selected".to_string(), Some((f, sw, i, o)))
    }));
    let (what, got) = match r {
        Ok(x) => x,
        Err(_) => return Some(s.fail("handling of the arguments panics".into())),
    };
    s.failed = what == "rejected";
    let want = match want {
        Meaning::Rejected | Meaning::Info => {
            let w = if want == Meaning::Info { "info" } else { "rejected" };
            s.output = what.clone();
            if what != w {
                return Some(s.fail(format!("the command line is {}, but should be {}", what, w)));
            }
            return Some(s);
        }
        Meaning::Selects(w) => w,
        Meaning::Undocumented => return None,
    };
    let (f, sw, i, o) = match got {
        Some(g) => g,
        None => return Some(s.fail(format!("a documented command line is {}", what))),
    };
    s.output = format!("{} {} -> {}", show(&f), i, o);
    let (p, c, w) = options(&want);
    for (a, b) in fields(&p, &c, &w).iter().zip(&f) {
        if a != b {
            return Some(s.fail(format!("{} is {}, but should be {}", a.0, b.1, a.1)));
        }
    }
    for (n, v) in sw {
        if want.set[n] != v.to_string() {
            return Some(s.fail(format!("--{} is {}, but should be {}", n, v, want.set[n])));
        }
    }
    if i != want.input || o != want.output {
        return Some(s.fail(format!("'{}' -> '{}' is selected, but should be '{}' -> '{}'", i, o, want.input, want.output)));
    }
    Some(s)
}

/// Every option with every documented value.
fn settings() -> Vec<String> {
    let mut v = vec![];
    for f in flags() {
        v.push(format!("--{}=true", f.0));
        v.push(format!("--{}=no", f.0));
    }
    for q in VALUED {
        for x in q.1 {
            v.push(format!("--{}={}", q.0, x));
        }
    }
    for p in PREC {
        for n in [1, 5, 12] {
            v.push(format!("--{}={}", p.0, n));
        }
    }
    for s in SWITCHES {
        v.push(format!("--{}", s));
    }
    v
}

/// Every option with every accepted and some unacceptable spellings (one or two arguments).
fn spellings() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![];
    let mut add = |n: &str, x: &str| {
        v.push(vec![format!("--{}={}", n, x)]);
        v.push(vec![format!("--{}", n), x.to_string()]);
    };
    for f in flags() {
        for x in ["true", "false", "yes", "no", "y", "n", "1", "0", "on", "True", "YES", "N", "t", "none", "all", "-"] {
            add(f.0, x);
        }
    }
    for q in VALUED {
        for x in q.1 {
            add(q.0, x);
        }
        for x in ["5", "-1", "tab", "spaces", "All", "true", "false", "yes", "comma,", "None", "x", "00"] {
            add(q.0, x);
        }
    }
    for p in PREC {
        for n in 0..=14 {
            add(p.0, &n.to_string());
        }
        for x in ["-1", "1.5", "abc", "256", "257", "1e1", "0x5", "5 ", " 5", "true", "65537"] {
            add(p.0, x);
        }
    }
    for s in SWITCHES {
        v.push(vec![format!("--{}", s)]);
        v.push(vec![format!("--{}=true", s)]);
        v.push(vec![format!("--{}=", s)]);
        v.push(vec![format!("--{}", s), "true".into()]);
    }
    for x in ["-c", "-q", "-x", "-cq", "--unknown", "--unknown=true", "--no-default", "--remove-comment", "--remove-title-", "--Quiet", "--title", "x", "svg", "true", "--remove-all=true", "---quiet"] {
        v.push(vec![x.to_string()]);
    }
    for f in flags() {
        v.push(vec![format!("--{}", f.0)]);
        v.push(vec![format!("--{}", f.0), "--quiet".into()]);
        v.push(vec![format!("--{}=true", f.0), format!("--{}=true", f.0)]);
        v.push(vec![format!("--{}=true", f.0), format!("--{}=false", f.0)]);
        v.push(vec![format!("--no-{}", f.0)]);
    }
    v
}

pub const PROBES: &[&str] = &[
    "<?xml version=\"1.0\"?>\n<!-- c -->\n<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" xmlns:i=\"http://i\" version=\"1.1\" viewBox=\"0 0 200.123456789 100\"><title>t</title><desc>d</desc><metadata>m</metadata><i:e i:a=\"1\"/><style>.k{fill:red}</style><defs><linearGradient id=\"unused\"/><linearGradient id=\"lg1\" gradientTransform=\"matrix(1 0 0 1 5 0)\" gradientUnits=\"userSpaceOnUse\" x1=\"1\"><stop offset=\"0\" stop-color=\"red\"/><stop offset=\".5\" stop-color=\"red\"/><stop offset=\".5\" stop-color=\"red\"/><stop offset=\"1\" stop-color=\"#112233\"/></linearGradient><linearGradient id=\"lg2\" gradientTransform=\"matrix(1 0 0 1 5 0)\" gradientUnits=\"userSpaceOnUse\" x1=\"1\"><stop offset=\"0\" stop-color=\"red\"/><stop offset=\".5\" stop-color=\"red\"/><stop offset=\".5\" stop-color=\"red\"/><stop offset=\"1\" stop-color=\"#112233\"/></linearGradient><radialGradient id=\"rg1\" r=\"5\"><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"lime\"/></radialGradient><radialGradient id=\"rg2\" r=\"5\"><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"lime\"/></radialGradient><radialGradient id=\"rg3\" r=\"7\"><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"lime\"/></radialGradient><linearGradient id=\"lg3\" xlink:href=\"#lg4\"/><linearGradient id=\"lg4\" x2=\".7\"><stop offset=\"0\"/><stop offset=\"1\" stop-color=\"blue\"/></linearGradient><filter id=\"f1\"><feGaussianBlur stdDeviation=\"2\"/></filter><filter id=\"f2\"><feGaussianBlur stdDeviation=\"2\"/></filter></defs><path i:b=\"2\" id=\"pp\" class=\"k other\" fill=\"url(#lg1)\" d=\"M 10.123456789123 20 L 10.5 20 L 30.5 20 L 30.5 40 Z\"/><path fill=\"url(#lg2)\" d=\"M 10 20 L 10 20 L 30 40 A 5 5 0 1 0 50 60\"/><path fill=\"url(#rg1)\" stroke=\"url(#rg2)\" d=\"M 1 2 L 1 5 C 1 5 3 4 5 6 L 9 9\"/><path fill=\"url(#rg3)\" stroke=\"url(#lg3)\" filter=\"url(#f1)\" transform=\"scale(2)\" d=\"M 1 2 L 30 5 L 9 9\"/><path filter=\"url(#f2)\" transform=\"matrix(1 0 0 1 7.123456789 0)\" stroke-width=\"1.123456789\" fill=\"#aabbcc\" d=\"M 1 2 L 30 5 L 9 9\"/></svg>",
    "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" viewBox=\"0 0 200 100\"><defs><path id=\"q\" d=\"M 1 2 L 30 5 L 9 9\"/></defs><g fill=\"red\"><g stroke=\"blue\"><rect x=\"1.12345678901\" y=\"2\" width=\"30\" height=\"40\" transform=\"translate(3 4)\" font-size=\"12\"/></g></g><use xlink:href=\"#q\" x=\"0\"/><path fill=\"#00ff00\" stroke=\"none\" stroke-width=\"4\" d=\"M 1 2 L 30 5 L 9 9\"/><path fill=\"#00ff00\" d=\"M 1 2 L 30 5 L 9 19\"/><path fill=\"#00ff00\" x=\"5\" d=\"M 1 2 L 30 5 L 9 29\"/><path fill=\"#00ff00\" opacity=\".123456789\" stroke=\"red\" stroke-width=\"2\" stroke-dasharray=\"1 2 3\" stroke-linecap=\"round\" stroke-linejoin=\"round\" fill-rule=\"evenodd\" d=\"M 1 2 L 30 5 L 9 39\"/><path d=\"\"/><g/><polygon points=\"1 2 3.123456789 4 5 0\" fill=\"black\"/><line x2=\"20\" y2=\"10\" stroke=\"red\" fill-opacity=\"1\"/></svg>",
    "<svg xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\" font-size=\"10\" width=\"9\" height=\"9\"><g font-family=\"x\"><path d=\"M1 2L3 4L5 0z\"/><path d=\"M1 2L3 4L5 5z\"/></g><svg x=\"0\" y=\"0\"><circle r=\"5\" cx=\"0\"/></svg></svg>",
];

/// The expected result of cleaning a probe with the documented options.
fn expected(probe: &str, w: &Want) -> Outcome {
    let (p, c, o) = options(w);
    let cfg = Config { name: String::new(), args: vec![], parse: p, clean: c, write: o };
    if let o @ (Outcome::Err(_) | Outcome::Panic(_)) = clean(probe, &cfg) {
        return o;
    }
    let mut t = match crate::c14::passes(probe, &cfg, w.set["multipass"] == "true") {
        Some(t) => t,
        None => return Outcome::Err("a later pass is refused".into()),
    };
    if w.set["allow-bigger-file"] != "true" && t.len() > probe.len() {
        return Outcome::Err("bigger".into());
    }
    if w.set["append-newline"] == "true" {
        t.push('\n');
    }
    Outcome::Ok(t)
}

/// Runs the executable with this argument vector and compares everything with the model.
fn binary(args: &[String], probe: &str, w: &Worker) -> Option<Scn> {
    let want = model(args);
    if want == Meaning::Undocumented {
        return None;
    }
    let mut s = Scn::new(probe.to_string(), args.join(" "));
    w.reset();
    w.put("in.svg", probe.as_bytes());
    w.put("old.svg", b"<svg>old</svg>");
    let before = w.snapshot();
    let r = w.run(args, Some(probe.as_bytes()), &[]);
    s.runs = 1;
    let after = w.snapshot();
    s.output = r.text();
    if let Err(e) = r.sane() {
        return Some(s.fail(e));
    }
    let untouched = |mut s: Scn| {
        s.failed = true;
        if before != after {
            return s.fail("files were changed although nothing may be written".into());
        }
        s
    };
    let want = match want {
        Meaning::Rejected => {
            s = untouched(s);
            if r.stderr.trim().is_empty() {
                return Some(s.fail("rejected without a message".into()));
            }
            if !r.stdout.is_empty() {
                return Some(s.fail("rejected arguments produce output".into()));
            }
            return Some(s);
        }
        Meaning::Info => {
            s = untouched(s);
            if r.stdout.is_empty() {
                return Some(s.fail("no help or version is printed".into()));
            }
            return Some(s);
        }
        Meaning::Selects(mut x) => {
            for p in [&mut x.input, &mut x.output] {
                if let Some(q) = p.strip_prefix("./") {
                    *p = q.to_string();
                }
            }
            x
        }
        Meaning::Undocumented => return None,
    };
    let missing = want.input != "-" && !before.contains_key(&want.input);
    match (missing, expected(probe, &want)) {
        (false, Outcome::Ok(t)) => {
            let mut exp = before.clone();
            if want.output == "-" {
                if r.stdout != t.as_bytes() {
                    return Some(s.fail(format!("wrong data on the standard output, expected {:?}", t)));
                }
            } else {
                exp.insert(want.output.clone(), t.into_bytes());
                if !r.stdout.is_empty() {
                    return Some(s.fail("output on stdout although a file is requested".into()));
                }
            }
            if exp != after {
                return Some(s.fail("the selected output file doesn't hold the expected result, or other files were changed".into()));
            }
            if r.reported_error() {
                return Some(s.fail("an error is reported for a successful run".into()));
            }
            let told = r.stderr.contains("smaller now");
            if told == (want.set["quiet"] == "true") {
                return Some(s.fail(format!("--quiet={} but the ratio is {}printed", want.set["quiet"], if told { "" } else { "not " })));
            }
            Some(s)
        }
        _ => {
            s.failed = true;
            let mut exp = before.clone();
            if !missing && want.set["copy-on-error"] == "true" && want.input != "-" && want.output != "-" {
                exp.insert(want.output.clone(), probe.as_bytes().to_vec());
            }
            if exp != after {
                return Some(s.fail("files after a failed run are not as documented".into()));
            }
            if !r.reported_error() || !r.stdout.is_empty() {
                return Some(s.fail("a failure is not reported, or something is printed".into()));
            }
            Some(s)
        }
    }
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

pub fn run(r: &mut Run) {
    let t = r.thorough();
    r.silent = true;
    let sp = spellings();
    let n = sp.len();
    // every spelling, before or after the files, with and without defaults
    let one = |i: u64| {
        let k = radix(i, &[sp.len(), 4, 2]);
        let mut a = sp[k[0]].clone();
        let f = strs(&["in.svg", "out.svg"]);
        a = match k[1] {
            0 => a.into_iter().chain(f).collect(),
            1 => f.into_iter().chain(a).collect(),
            2 => vec![f[0].clone()].into_iter().chain(a).chain(vec![f[1].clone()]).collect(),
            _ => vec!["-c".to_string()].into_iter().chain(a).chain(vec![f[0].clone()]).collect(),
        };
        if k[1] == 2 && sp[k[0]].len() > 1 && !sp[k[0]][1].starts_with("--") {
            // fine: the value belongs to the option
        }
        if k[2] == 1 {
            a.insert(0, "--no-defaults".into());
        }
        a
    };
    r.scenarios("every spelling", product(&[n, 4, 2]), |i, _| in_process(&one(i)));
    let st = settings();
    let m = st.len();
    let pair = |i: u64| {
        let k = radix(i, &[m, m, 2]);
        let mut a = vec![st[k[0]].clone(), st[k[1]].clone(), "in.svg".into(), "out.svg".into()];
        if k[2] == 1 {
            a.insert(1, "--no-defaults".into());
        }
        a
    };
    r.scenarios("pairs of options", product(&[m, m, 2]), |i, _| in_process(&pair(i)));
    let deps = ["trim-paths", "join-arcto-flags", "paths-to-relative", "remove-unused-segments", "convert-segments", "apply-transform-to-paths"];
    let dep = |i: u64| {
        let k = radix(i, &[3, 3, 3, 3, 3, 3, 2]);
        let mut a = vec![];
        for (j, d) in deps.iter().enumerate() {
            match k[j] {
                1 => a.push(format!("--{}=yes", d)),
                2 => a.push(format!("--{}=false", d)),
                _ => {}
            }
        }
        if k[6] == 1 {
            a.push("--no-defaults".into());
        }
        a.push("in.svg".into());
        a.push("out.svg".into());
        a
    };
    r.scenarios("dependencies", product(&[3, 3, 3, 3, 3, 3, 2]), |i, _| in_process(&dep(i)));
    r.scenarios("precisions", product(&[13, 13, 13, 13, 2]), |i, _| {
        let k = radix(i, &[13, 13, 13, 13, 2]);
        // all quadruples on a coarser grid in the quick tier
        if !t && k[..4].iter().filter(|x| **x % 4 != 0).count() > 2 {
            return None;
        }
        let mut a = vec![];
        for (j, p) in PREC.iter().enumerate() {
            if k[j] > 0 {
                a.push(format!("--{}={}", p.0, k[j]));
            }
        }
        if k[4] == 1 {
            a.push("--no-defaults".into());
        }
        a.extend(strs(&["in.svg", "out.svg"]));
        in_process(&a)
    });
    let words = ["in.svg", "out.svg", "-", "-c", "--stdout", "x.png", "--quiet", "old.SVG", ".svg", "svg", "a b.svg", "é.svg", "--copy-on-error", "in.svg.gz", "./in.svg", ""];
    let files = |i: u64| {
        let k = crate::fam::seq(i, words.len());
        k.iter().map(|j| words[*j].to_string()).collect::<Vec<_>>()
    };
    r.scenarios("files and streams", crate::fam::seq_count(words.len(), if t { 5 } else { 4 }), |i, _| in_process(&files(i)));
    // each option off, then each triple of others
    let tri = |i: u64| {
        let k = radix(i, &[m, m, m, 2]);
        if k[0] >= k[1] || k[1] >= k[2] {
            return None;
        }
        let mut a = vec![st[k[2]].clone(), "in.svg".into(), st[k[0]].clone(), "out.svg".into(), st[k[1]].clone()];
        if k[3] == 1 {
            a.push("--no-defaults".into());
        }
        Some(a)
    };
    r.scenarios("triples of options", product(&[m, m, m, 2]), |i, _| in_process(&tri(i)?));
    // everything given explicitly, one option flipped
    let fl = flags();
    r.scenarios("all options explicit, two flipped", product(&[fl.len(), fl.len(), 4]), |i, _| {
        let k = radix(i, &[fl.len(), fl.len(), 4]);
        let mut a = vec![];
        for (j, f) in fl.iter().enumerate() {
            let base = match k[2] / 2 {
                0 => true,
                _ => false,
            };
            let v = if j == k[0] || j == k[1] { !base } else { base };
            a.push(format!("--{}={}", f.0, v));
        }
        if k[2] % 2 == 1 {
            a.push("--no-defaults".into());
        }
        a.extend(strs(&["in.svg", "out.svg"]));
        in_process(&a)
    });
    // the executable
    r.silent = false;
    r.scenarios("executable: every spelling", product(&[n, 4, 2]), |i, w| {
        if !t && radix(i, &[sp.len(), 4, 2])[2] == 1 && i % 2 == 0 {
            // half of the spellings without defaults are left to the thorough tier
            return None;
        }
        binary(&one(i), PROBES[(i % PROBES.len() as u64) as usize], w)
    });
    r.scenarios("executable: each option on each probe", product(&[m, 2, 2, PROBES.len()]), |i, w| {
        let k = radix(i, &[m, 2, 2, PROBES.len()]);
        let mut a = vec![st[k[0]].clone(), "in.svg".into(), "out.svg".into()];
        if k[1] == 1 {
            a.insert(0, "--no-defaults".into());
        }
        if k[2] == 1 {
            a.push("--allow-bigger-file".into());
        }
        binary(&a, PROBES[k[3]], w)
    });
    r.scenarios("executable: dependencies", product(&[3, 3, 3, 3, 3, 3, 2]), |i, w| binary(&dep(i), PROBES[0], w));
    r.scenarios("executable: switches", product(&[2, 2, 2, 2, 2, 2, 2, PROBES.len(), 4]), |i, w| {
        let k = radix(i, &[2, 2, 2, 2, 2, 2, 2, PROBES.len(), 4]);
        let mut a: Vec<String> = SWITCHES.iter().enumerate().filter(|s| k[s.0] == 1).map(|s| format!("--{}", s.1)).collect();
        if k[6] == 1 {
            a.push("--append-newline=yes".into());
        }
        a.extend(strs(&[
            &["in.svg", "out.svg"] as &[&str],
            &["in.svg", "old.svg"],
            &["in.svg", "in.svg"],
            &["old.svg", "-"],
        ][k[8]]));
        binary(&a, PROBES[k[7]], w)
    });
    r.scenarios("executable: files and streams", crate::fam::seq_count(words.len(), if t { 4 } else { 3 }), |i, w| binary(&files(i), PROBES[2], w));
    r.scenarios("executable: information", 5, |i, w| {
        let a = [strs(&["--help"]), strs(&["-h"]), strs(&["--version"]), strs(&["-V"]), vec![]];
        binary(&a[i as usize], PROBES[1], w)
    });
    r.scenarios("executable: pairs of options", product(&[m, m, 2]), |i, w| binary(&pair(i), PROBES[(i % 3) as usize], w));
    if t {
        r.scenarios("executable: triples of options", product(&[m, m, m, 2]), |i, w| binary(&tri(i)?, PROBES[(i % 3) as usize], w));
    }
}
