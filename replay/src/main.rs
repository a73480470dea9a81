//! Executable counterpart of the contracts: runs the real formatter (the crate in
//! /repo, rebuilt from its working tree) on concrete programs and evaluates the
//! properties' postconditions on the result.
use serde_json::{json, Value};
use sf_afmt::formatter::{Config, Formatter};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::sync::{atomic::{AtomicUsize, Ordering}, Arc, Mutex};
use tree_sitter::{Node, Parser, Tree};

static HANGS: AtomicUsize = AtomicUsize::new(0);
thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

fn parse(s: &str) -> Tree {
    let mut p = Parser::new();
    p.set_language(&tree_sitter_sfapex::apex::LANGUAGE.into()).unwrap();
    p.parse(s, None).unwrap()
}

#[derive(Debug, Clone, PartialEq)]
struct Tok { t: String, kind: String, start: usize, end: usize, srow: usize, erow: usize }

fn norm(kind: &str, s: &str) -> String {
    if matches!(kind, "string_literal" | "term" | "identifier" | "type_identifier" | "int" | "currency_literal") { return s.to_string(); }
    s.chars().filter(|c| !c.is_whitespace()).collect::<String>().to_lowercase()
}

/// tokens the formatter is documented to be free to drop: an empty statement / member `;`
/// and the empty parentheses of an annotation
fn droppable(n: Node) -> bool {
    let p = match n.parent() { Some(p) => p, None => return false };
    match n.kind() {
        ";" => matches!(p.kind(), "block" | "class_body" | "interface_body" | "constructor_body" | "trigger_body" | "parser_output"),
        "(" | ")" => p.kind() == "annotation_argument_list" && p.named_child_count() == 0
            || matches!(p.kind(), "where_clause" | "having_clause" | "and_expression" | "or_expression" | "not_expression"),
        "AS" => p.kind() == "storage_alias",
        _ => false,
    }
}

fn leaves(src: &str, t: &Tree, flip: bool) -> (Vec<Tok>, Vec<(Tok, usize)>) {
    let mut toks = vec![]; let mut comments = vec![];
    fn go(n: Node, src: &str, flip: bool, toks: &mut Vec<Tok>, comments: &mut Vec<(Tok, usize)>) {
        if n.is_extra() || n.child_count() == 0 {
            let s = &src[n.start_byte()..n.end_byte()];
            let tok = Tok { t: if n.is_extra() { s.to_string() } else { norm(n.kind(), s) }, kind: n.kind().to_string(),
                start: n.start_byte(), end: n.end_byte(), srow: n.start_position().row, erow: n.end_position().row };
            if n.is_extra() { let k = toks.len(); comments.push((tok, k)); }
            else if !(s.trim().is_empty()) && !droppable(n) { toks.push(tok); }
            return;
        }
        let mut c = n.walk();
        if n.kind() == "modifiers" {
            // modifiers may be re-ordered: annotations first, then the keywords; compare as annotations + sorted keywords
            let from = toks.len();
            let ch: Vec<Node> = n.children(&mut c).collect();
            for x in ch.iter().filter(|x| x.is_extra() || x.kind() == "annotation") { go(*x, src, flip, toks, comments); }
            let mid = toks.len();
            for x in ch.iter().filter(|x| !(x.is_extra() || x.kind() == "annotation")) { go(*x, src, flip, toks, comments); }
            let _ = from;
            toks[mid..].sort_by(|a, b| a.t.cmp(&b.t));
            return;
        }
        // of the comments in front of a `,` or `;` the line comments are printed behind it, the others before it
        let mut ch: Vec<Node> = n.children(&mut c).collect();
        if flip {
            let mut i = 0;
            while i < ch.len() {
                // comments, possibly with tokens that own no comments in between, up to a `,` or `;`
                let mut j = i;
                while j < ch.len() && (ch[j].is_extra() || !ch[j].is_named() && !matches!(ch[j].kind(), "," | ";" | "else")) { j += 1; }
                if j > i && j < ch.len() && matches!(ch[j].kind(), "," | ";") {
                    let pos: Vec<usize> = (i..j).filter(|k| ch[*k].is_extra()).collect();
                    let mut cs: Vec<Node> = pos.iter().map(|k| ch[*k]).collect();
                    cs.sort_by_key(|x| x.kind() == "line_comment");
                    for (k, c) in pos.into_iter().zip(cs) { ch[k] = c; }
                }
                i = j + 1;
            }
        }
        for ch in ch { go(ch, src, flip, toks, comments); }
    }
    go(t.root_node(), src, flip, &mut toks, &mut comments);
    (toks, comments)
}

/// comment text up to the documented re-indentation: per line whitespace trimmed;
/// for /** comments the leading `*` of a line is decoration
fn cnorm(c: &str) -> String {
    let c = c.trim_end();
    if c.starts_with("//") { return c.to_string(); }
    if c.starts_with("/**") {
        let inner = c.strip_prefix("/**").unwrap();
        let inner = inner.strip_suffix("*/").unwrap_or(inner.strip_suffix('/').unwrap_or(inner));
        let mut v: Vec<String> = vec![];
        for (i, l) in inner.split('\n').enumerate() {
            let mut l = l.trim();
            if i > 0 { l = l.strip_prefix('*').unwrap_or(l).trim(); }
            if !l.is_empty() { v.push(l.to_string()); }
        }
        return format!("/**{}*/", v.join("\n"));
    }
    c.split('\n').map(|l| l.trim()).collect::<Vec<_>>().join("\n")
}

fn run_fmt(src: &str, width: u32, indent: u32) -> Result<String, String> {
    let s = src.to_string();
    if HANGS.load(Ordering::SeqCst) > 5 { return Err("not run".into()); }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let r = std::panic::catch_unwind(|| {
            let mut c = Config::new(width);
            c.indent_size = indent;
            Formatter::format_one(&s, c)
        });
        let _ = tx.send(match r { Ok(o) => Ok(o), Err(_) => Err(PANIC.with(|p| p.borrow().clone())) });
    }).unwrap();
    match rx.recv_timeout(std::time::Duration::from_secs(20)) {
        Ok(r) => r,
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => { HANGS.fetch_add(1, Ordering::SeqCst); Err("HANG: no answer within 20 s".into()) }
        Err(_) => Err("thread died".into()),
    }
}

/// P18: why this source may be rejected: a construct that is not supported, or a comment
fn excuse(n: Node) -> Option<String> {
    if n.is_extra() { return Some("comment".into()); }
    let decl = |k: &str| matches!(k, "class_declaration" | "enum_declaration" | "interface_declaration" | "trigger_declaration");
    if let Some(p) = n.parent() {
        let (k, p) = (n.kind(), p.kind());
        let bad = n.is_named() && (if p == "parser_output" { !decl(k) }
            else if decl(k) || k == "method_declaration" { !matches!(p, "class_body" | "interface_body") }
            else if k == "array_initializer" { p != "array_creation_expression" }
            else { matches!(k, "annotated_type" | "type_of_clause" | "with_record_visibility_expression") });
        if bad { return Some(k.into()); }
    }
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    ch.into_iter().find_map(excuse)
}
/// a merge whose first operand has white space in it: the parser takes a plain blank there for the separator of the operands
fn merge_operand(n: Node, src: &str) -> bool {
    if n.kind() == "dml_expression" && n.child_by_field_name("merge_with").is_some() {
        if let Some(t) = n.child_by_field_name("target") {
            if src[t.start_byte()..t.end_byte()].contains(char::is_whitespace) { return true; }
        }
    }
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    ch.into_iter().any(|x| merge_operand(x, src))
}
fn rejected(t: &Tree, e: String) -> Value {
    let st = if e.starts_with("HANG") { "hang" } else if e == "not run" { "notrun" } else { "panic" };
    json!({"st": st, "msg": e, "excuse": excuse(t.root_node())})
}

fn outline(n: Node, src: &str) -> Value {
    // structure without extras, used for grouping comparison
    if n.kind() == "modifiers" || n.kind() == "annotation_argument_list" && n.named_child_count() == 0 { return json!(""); }
    if n.child_count() == 0 && n.kind() != "parser_output" { return json!(norm(n.kind(), &src[n.start_byte()..n.end_byte()])); }
    let mut c = n.walk();
    let mut v: Vec<Value> = vec![];
    for x in n.children(&mut c).filter(|x| !x.is_extra() && !droppable(*x)) {
        let o = outline(x, src);
        // a AND (b AND c) is the same condition as a AND b AND c
        if matches!(n.kind(), "and_expression" | "or_expression") && x.kind() == n.kind() {
            if let Value::Array(ref i) = o[1] { v.extend(i.iter().cloned()); continue; }
        }
        v.push(o);
    }
    // an annotation without arguments may lose its empty parentheses
    v.retain(|x| x != &json!(""));
    json!([n.kind(), v])
}

/// is there a modifier list whose annotations do not all come first?
fn reordered_modifiers(n: Node) -> bool {
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    if n.kind() == "modifiers" {
        let mut kw = false;
        for x in ch.iter().filter(|x| !x.is_extra()) {
            if x.kind() == "annotation" { if kw { return true; } } else { kw = true; }
        }
    }
    ch.into_iter().any(reordered_modifiers)
}

const BODIES: [&str; 9] = ["class_body", "interface_body", "enum_body", "trigger_body", "constructor_body", "block", "switch_block", "accessor_list", "parser_output"];

/// P09: columns of members, statements and closing braces
fn check_indent(n: Node, src: &str, indent: usize, depth: usize, bad: &mut Vec<Value>) {
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    let line_start = |x: &Node| {
        let l = src[..x.start_byte()].rfind('\n').map(|i| i + 1).unwrap_or(0);
        &src[l..x.start_byte()]
    };
    let is_body = BODIES.contains(&n.kind()) && n.kind() != "parser_output"
        && ch.first().map(|x| x.kind() == "{").unwrap_or(false);
    let inner = if is_body { depth + 1 } else { depth };
    // accessors kept on the line of their property
    let inline = n.kind() == "accessor_list" && ch.len() > 1 && ch[1].start_position().row == n.start_position().row;
    let covered = !inline && (is_body || n.kind() == "parser_output") && !(n.kind() == "accessor_list" && n.start_position().row == n.end_position().row);
    for (i, x) in ch.iter().enumerate() {
        if covered && x.is_named() && !x.is_extra() && !(i > 0 && ch[i - 1].is_extra()) {
            let pre = line_start(x);
            if !pre.chars().all(|c| c == ' ') && !(pre.trim_start().starts_with("/*") || pre.contains("*/")) {
                // accessors without a body may share a line
                if n.kind() != "accessor_list" { bad.push(json!({"k": "own-line", "node": x.kind(), "line": pre})); }
            } else if pre.chars().all(|c| c == ' ') && pre.len() != inner * indent {
                bad.push(json!({"k": "indent", "node": x.kind(), "col": pre.len(), "want": inner * indent}));
            }
        }
        if is_body && !inline && x.kind() == "}" && n.start_position().row != n.end_position().row {
            let pre = line_start(x);
            if pre.chars().all(|c| c == ' ') {
                if pre.len() != depth * indent { bad.push(json!({"k": "indent", "node": "}", "of": n.kind(), "col": pre.len(), "want": depth * indent})); }
            } else if !(pre.trim_start().starts_with("/*") || pre.contains("*/")) && n.kind() != "accessor_list" { bad.push(json!({"k": "own-line", "node": "}", "of": n.kind(), "line": pre})); }
        }
        if x.child_count() == 0 || x.is_extra() { continue; }
        if n.kind() == "object_creation_expression" && x.kind() == "class_body" { continue; }
        let d = if n.kind() == "if_statement" && x.kind() != "block" && x.kind() != "parenthesized_expression" && line_start(x).trim().is_empty() { inner + 1 } else { inner };
        check_indent(*x, src, indent, d, bad);
    }
}

/// P10: (kind, blank lines) between neighbouring members without a comment between them
fn blanks(n: Node, v: &mut Vec<(String, Option<bool>, usize)>) {
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    if matches!(n.kind(), "class_body" | "interface_body" | "trigger_body" | "constructor_body" | "block" | "parser_output") {
        let named: Vec<usize> = (0..ch.len()).filter(|i| ch[*i].is_named() && !ch[*i].is_extra()).collect();
        for w in named.windows(2) {
            let (a, b) = (ch[w[0]], ch[w[1]]);
            let clean = (w[0] + 1..w[1]).all(|i| !ch[i].is_extra());
            // the widest of the gaps before, between and behind stray semicolons
            let gap = (w[0] + 1..=w[1]).map(|i| ch[i].start_position().row.saturating_sub(ch[i - 1].end_position().row)).max().unwrap();
            v.push((format!("{}:{}", n.kind(), b.kind()), if clean { Some(gap > 1) } else { None }, gap));
        }
    }
    for x in ch { if !x.is_extra() { blanks(x, v); } }
}

/// P08: at every width that is the longest line of a layout the layout stays as it is
fn check_width(src: &str, indent: u32, breakable: bool) -> Value {
    let mut bad = vec![];
    let t = parse(src);
    if t.root_node().has_error() { return json!({"st": "noparse"}); }
    // verbatim annotation values that span lines are copied, not measured
    if multi_line_value(t.root_node()) { return json!({"st": "skip"}); }
    let mut w = 1_000_000u32;
    let mut steps = 0;
    let mut last = String::new();
    loop {
        let out = match run_fmt(src, w, indent) { Ok(o) => o, Err(e) => return rejected(&t, e) };
        let l = out.lines().map(|x| x.chars().count()).max().unwrap_or(0) as u32;
        if steps == 1 && breakable && (out == last || l > w) { bad.push(json!({"k": "not-broken", "w": w, "out": out})); }
        if l > w || l == 0 { break; }
        match run_fmt(src, l, indent) {
            Ok(o) => if o != out { bad.push(json!({"k": "broken-though-it-fits", "w": l, "at_wider": w, "out": o, "fits": out})); },
            Err(e) => return rejected(&t, e),
        }
        steps += 1;
        if steps > 40 || !bad.is_empty() { break; }
        w = l - 1;
        last = out;
    }
    json!({"st": "ok", "bad": bad, "steps": steps})
}

fn judge(src: &str, width: u32, indent: u32, idem: bool) -> Value {
    let t = parse(src);
    if t.root_node().has_error() {
        return match run_fmt(src, width, indent) { Ok(o) => json!({"st": "accepted", "out": o}), Err(e) => json!({"st": "noparse", "msg": e}) };
    }
    let (ti, ci) = leaves(src, &t, false);
    let out = match run_fmt(src, width, indent) { Ok(o) => o, Err(e) => return rejected(&t, e) };
    let t2 = parse(&out);
    let (to, co) = leaves(&out, &t2, false);
    let mut bad: Vec<Value> = vec![];
    if t2.root_node().has_error() { bad.push(json!({"k": "reparse"})); }
    if let Some(mut d) = first_diff(&ti, &to) {
        let at = d["at"].as_u64().unwrap() as usize;
        let (a, b) = if at < ti.len() { (ti[at].start, ti[at].end) } else { (src.len(), src.len()) };
        let mut k = vec![];
        let mut n = t.root_node().descendant_for_byte_range(a, b);
        while let Some(x) = n { k.push(x.kind()); n = x.parent(); }
        d["kinds"] = json!(k);
        bad.push(d);
    }
    else if outline(t.root_node(), src) != outline(t2.root_node(), &out) { bad.push(json!({"k": "structure"})); }
    let a: Vec<String> = ci.iter().map(|c| cnorm(&c.0.t)).collect();
    let b: Vec<String> = co.iter().map(|c| cnorm(&c.0.t)).collect();
    if a != b {
        let (mut sa, mut sb) = (a.clone(), b.clone()); sa.sort(); sb.sort();
        if sa != sb { bad.push(json!({"k": "comment-text", "in": a, "out": b})); }
        // annotations are moved in front of keyword modifiers, with their comments
        else if !reordered_modifiers(t.root_node())
            && leaves(src, &t, true).1.iter().map(|c| cnorm(&c.0.t)).collect::<Vec<_>>() != b { bad.push(json!({"k": "comment-order", "in": a, "out": b})); }
    }
    if !t2.root_node().has_error() && bad.is_empty() {
        if !anonymous_class(t2.root_node()) { check_indent(t2.root_node(), &out, indent as usize, 0, &mut bad); }
        let (mut bi, mut bo) = (vec![], vec![]);
        blanks(t.root_node(), &mut bi); blanks(t2.root_node(), &mut bo);
        if bi.len() != bo.len() { bad.push(json!({"k": "structure", "what": "members"})); }
        else { for (a, b) in bi.iter().zip(bo.iter()) {
            if let (Some(x), Some(y)) = (a.1, b.1) {
                if x != y || b.2 > 2 { bad.push(json!({"k": "blank-line", "between": b.0, "source_blank": x, "rows": b.2})); }
            }
        } }
    }
    if t2.root_node().has_error() && merge_operand(t.root_node(), src) {
        for b in bad.iter_mut() { b["site"] = json!("merge-operand"); }
    }
    let mut r = json!({"st": "ok", "bad": bad, "out": out});
    if idem {
        match run_fmt(&out, width, indent) {
            Ok(o2) => if o2 != out { r["idem"] = json!(o2); },
            Err(e) => { r["idem_err"] = json!(e); }
        }
        if merge_operand(t.root_node(), src) { r["idem_site"] = json!("merge-operand"); }
    }
    r
}

fn multi_line_value(n: Node) -> bool {
    if n.child_count() > 0 && n.kind().starts_with("element_value") && n.start_position().row != n.end_position().row { return true; }
    if n.child_count() == 0 && !n.is_extra() && n.is_named() && n.start_position().row != n.end_position().row { return true; }
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    ch.into_iter().any(multi_line_value)
}


fn anonymous_class(n: Node) -> bool {
    let mut c = n.walk();
    let ch: Vec<Node> = n.children(&mut c).collect();
    if n.kind() == "object_creation_expression" && ch.iter().any(|x| x.kind() == "class_body") { return true; }
    ch.into_iter().any(anonymous_class)
}

/// P16: several files in one call
fn multi(it: &Value) -> Value {
    let files: Vec<String> = it["files"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let want: Vec<Option<String>> = files.iter().map(|f| std::fs::read_to_string(f).ok().and_then(|s| run_fmt(&s, 80, 2).ok())).collect();
    let got: Vec<Option<String>> = Formatter::new(Config::default(), files.clone()).format().into_iter().map(|r| r.ok()).collect();
    let mut bad = vec![];
    if got != want {
        let i = (0..want.len()).find(|i| got.get(*i) != want.get(*i));
        bad.push(json!({"k": "order", "len": got.len(), "want_len": want.len(), "first_different": i}));
    }
    json!({"st": "ok", "bad": bad})
}

fn first_diff(a: &[Tok], b: &[Tok]) -> Option<Value> {
    let n = a.len().min(b.len());
    for i in 0..n {
        if a[i].t != b[i].t {
            let s = i.saturating_sub(3);
            return Some(json!({"k": "token", "at": i,
                "in": a[s..(i + 4).min(a.len())].iter().map(|t| t.t.clone()).collect::<Vec<_>>(),
                "out": b[s..(i + 4).min(b.len())].iter().map(|t| t.t.clone()).collect::<Vec<_>>()}));
        }
    }
    if a.len() != b.len() {
        let s = n.saturating_sub(3);
        return Some(json!({"k": "token", "at": n,
            "in": a[s..].iter().take(8).map(|t| t.t.clone()).collect::<Vec<_>>(),
            "out": b[s..].iter().take(8).map(|t| t.t.clone()).collect::<Vec<_>>()}));
    }
    None
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", m, l));
    }));
    let args: Vec<String> = std::env::args().collect();
    let idem = args.iter().any(|a| a == "--idem");
    let items: Vec<Value> = std::io::stdin().lock().lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let items = Arc::new(items);
    let next = Arc::new(Mutex::new(0usize));
    let res: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; items.len()]));
    let hs: Vec<_> = (0..8).map(|_| {
        let (items, next, res) = (items.clone(), next.clone(), res.clone());
        std::thread::spawn(move || loop {
            let i = { let mut n = next.lock().unwrap(); let i = *n; *n += 1; i };
            if i >= items.len() { return; }
            let it = &items[i];
            let w = it["w"].as_u64().unwrap_or(80) as u32;
            let ind = it["ind"].as_u64().unwrap_or(2) as u32;
            let mut r = if it["mode"] == "multi" { multi(it) }
                else if it["mode"] == "width" { check_width(it["src"].as_str().unwrap(), ind, it["breakable"].as_bool().unwrap_or(false)) }
                else { judge(it["src"].as_str().unwrap(), w, ind, idem) };
            r["id"] = it["id"].clone();
            res.lock().unwrap()[i] = Some(r);
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    let so = std::io::stdout(); let mut so = so.lock();
    for r in res.lock().unwrap().iter() { writeln!(so, "{}", r.as_ref().unwrap()).unwrap(); }
    so.flush().unwrap();
    std::process::exit(0);      // whatever still runs never ends
}
