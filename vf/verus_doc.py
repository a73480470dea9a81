"""Contracts of the functions of /repo/src/doc.rs, for Verus."""
import re, os
from .extract import Extract, Misfit

PRELUDE = '''use vstd::prelude::*;
verus! {
// ---- contracts assumed on std
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *((r->0).0) == s@.last() && ((r->0).1)@ == s@.drop_last();
#[verifier::external_body]
fn vx_ends_with_char(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body]
fn vx_is(s: &String, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
'''
TRUST = ["Verus 0.2026.09.13 and its z3", "std contracts assumed: <[T]>::split_last; str::ends_with(char) (vx_ends_with_char) and String == str (vx_is) as external bodies; vstd's contracts of String::push, push_str, Vec, iterators",
         "the annotating extractor vf/extract.py (it inserts contracts and drops what 'extraction' in the evidence lists; the verified text is otherwise the text of /repo/src)"]

REV = '''invariant
    it.seq().len() == seq@.len(), forall|j: int| 0 <= j < seq@.len() ==> *(#[trigger] it.seq()[j]) == seq@[seq@.len() - 1 - j],
'''
CONTRACTS = {
 "Chunk::with_doc": {"ret": "r", "spec": "ensures r == (Chunk { doc_ref, indent: self.indent, flat: self.flat })"},
 "Chunk::indented": {"ret": "r", "spec": "requires self.indent + indent <= u32::MAX ensures r == (Chunk { doc_ref, indent: (self.indent + indent) as u32, flat: self.flat })"},
 "Chunk::dedented": {"ret": "r", "spec": "ensures r == (Chunk { doc_ref, indent: if self.indent < indent { 0 } else { (self.indent - indent) as u32 }, flat: self.flat })"},
 "Chunk::flat": {"ret": "r", "spec": "ensures r == (Chunk { doc_ref, indent: self.indent, flat: true })"},
 "NewlineBuffer::new": {"ret": "r", "spec": "ensures pend(r) is None"},
 "NewlineBuffer::set_pending": {"spec": "ensures pend(*final(self)) == Some(indent as nat)"},
 "NewlineBuffer::clear": {"spec": "ensures pend(*final(self)) is None"},
 "NewlineBuffer::is_pending": {"ret": "r", "spec": "ensures r == pend(*self) is Some"},
 "NewlineBuffer::get_indent": {"ret": "r", "spec": "ensures pend(*self) is Some ==> pend(*self) == Some(r as nat)"},
 "pretty_print": {"ret": "r", "spec": "requires wf(doc_ref), 2 * wgt(doc_ref) <= u32::MAX\nensures r@ == layout(doc_ref, max_width as nat)"},
 "PrettyPrinter::new": {"ret": "r", "spec": "ensures r.max_width == max_width, r.col == 0, r.chunks@ == seq![Chunk { doc_ref, indent: 0, flat: false }]"},
 "PrettyPrinter::insert_newline_with_indent": {
   "spec": '''ensures final(result)@ == old(result)@.push('\\n') + spaces(indent as nat), final(self).col == indent, col(final(result)@) == indent,
    final(self).max_width == old(self).max_width, final(self).chunks == old(self).chunks''',
   "start": "proof { l_col_nl(result@, indent as nat); }",
   "loops": [{"kw": "for", "name": "it", "spec": "invariant result@ =~= old(result)@.push('\\n') + spaces(it.index@ as nat), self.max_width == old(self).max_width, self.chunks == old(self).chunks"}]},
 "PrettyPrinter::print": {"ret": "r",
   "spec": '''requires old(self).col == 0, old(self).chunks@.len() == 1, old(self).chunks@[0].indent == 0, !old(self).chunks@[0].flat,
    wf(old(self).chunks@[0].doc_ref), 2 * wgt(old(self).chunks@[0].doc_ref) <= u32::MAX
ensures r@ == layout(old(self).chunks@[0].doc_ref, old(self).max_width as nat)''',
   "start": '''let ghost mw = self.max_width as nat;
let ghost root = self.chunks@[0].doc_ref;
let ghost w = wgt(root);
let ghost all = lay_stack(self.chunks@, mw, start());
proof { assert(self.chunks@.drop_last() =~= seq![]); reveal_with_fuel(lay_stack, 3); reveal_with_fuel(wgt_stack, 3); }
assert(all == lay(root, 0, false, seq![], mw, start()));''',
   "loops": [{"kw": "while", "before": "proof { assert(result@ =~= start().out); }", "spec": '''invariant
    self.max_width == mw, 2 * w <= u32::MAX,
    ok_stack(self.chunks@, w), wgt_stack(self.chunks@) <= w,
    self.col == col(result@), self.col + wgt_stack(self.chunks@) <= 2 * w,
    pend(newline_buffer) is Some ==> pend(newline_buffer)->0 <= w,
    lay_stack(self.chunks@, mw, St { out: result@, pend: pend(newline_buffer) }) == all,
    all == lay(root, 0, false, seq![], mw, start()), root == old(self).chunks@[0].doc_ref, mw == old(self).max_width,
ensures self.chunks@.len() == 0
decreases dsz_stack(self.chunks@)''',
     "start": '''let ghost st = self.chunks@;
let ghost s0 = St { out: result@, pend: pend(newline_buffer) };
assert(wf(chunk.doc_ref) && chunk.indent + wgt(chunk.doc_ref) <= w);
proof { l_stack_push(st, chunk); l_lay_push(st, chunk, mw, s0); l_col_all(); assert(result@ + seq![' '] =~= result@.push(' ')); l_col(result@, seq![' ']); }''',
     "end": '''proof {
    if self.chunks@.len() == st.len() + 1 { l_stack_push(st, self.chunks@.last()); l_lay_push(st, self.chunks@.last(), mw, St { out: result@, pend: pend(newline_buffer) }); assert(self.chunks@ =~= st.push(self.chunks@.last())); }
    if let Doc::Concat(seq) = chunk.doc_ref {
        l_push(st, seq@, seq@.len(), chunk.indent as nat, chunk.flat);
        l_pushed(st, *seq, chunk, w);
        l_lays(st, seq@, seq@.len(), chunk.indent as nat, chunk.flat, mw, s0);
    }
}'''},
    {"kw": "for", "name": "it", "spec": REV + "self.chunks@ =~= st + tail(seq@, it.index@ as nat, chunk.indent as nat, chunk.flat), self.col == col(result@), self.max_width == mw,"}]},
 "PrettyPrinter::fits": {"ret": "r",
   "spec": '''requires ok_stack(self.chunks@, u32::MAX as nat), wf(chunk.doc_ref), chunk.indent + wgt(chunk.doc_ref) <= u32::MAX
ensures r == fits_spec(chunk, self.chunks@, self.max_width as nat, self.col as nat)''',
   "start": '''let ghost goal = fits_spec(chunk, self.chunks@, self.max_width as nat, self.col as nat);
proof { assert(seq![chunk] =~= seq![].push(chunk)); l_stack_push(seq![], chunk); assert(la(chunk.doc_ref, chunk.flat) + la_stack(seq![]) =~= la(chunk.doc_ref, chunk.flat)); }''',
   "loops": [{"kw": "loop", "before": "proof { assert(stack@ =~= seq![].push(chunk)); }", "spec": '''invariant
    ok_stack(stack@, u32::MAX as nat), ok_stack(chunks@, u32::MAX as nat),
    goal == ((!within_group || !forced(la_stack(stack@))) && width(la_stack(stack@) + la_stack(chunks@)) <= remaining_width),
    goal == fits_spec(chunk, self.chunks@, self.max_width as nat, self.col as nat),
decreases dsz_stack(stack@) + dsz_stack(chunks@)''',
     "start": '''let ghost st = if stack@.len() > 0 { stack@.drop_last() } else { stack@ };
let ghost cs = if stack@.len() == 0 && chunks@.len() > 0 { chunks@.drop_last() } else { chunks@ };
proof {
    if stack@.len() > 0 || chunks@.len() > 0 {
        let chunk = if stack@.len() > 0 { stack@.last() } else { chunks@.last() };
        l_stack_push(st, chunk); l_head(la(chunk.doc_ref, chunk.flat), la_stack(st), la_stack(cs));
        if stack@.len() == 0 { assert(seq![] + la_stack(chunks@) =~= la_stack(chunks@)); assert(st =~= seq![]); assert(seq![] + la_stack(cs) =~= la_stack(cs)); }
    } else { assert(la_stack(stack@) + la_stack(chunks@) =~= seq![]); }
}''',
     "end": '''proof {
    if stack@.len() == st.len() + 1 { l_stack_push(st, stack@.last()); assert(stack@ =~= st.push(stack@.last())); }
    if let Doc::Concat(seq) = chunk.doc_ref {
        l_push(st, seq@, seq@.len(), chunk.indent as nat, chunk.flat);
        l_pushed(st, *seq, chunk, u32::MAX as nat);
    }
}'''},
    {"kw": "for", "name": "it", "spec": REV + "stack@ =~= st + tail(seq@, it.index@ as nat, chunk.indent as nat, chunk.flat),"}]},
}
def names(src):
    return sorted(set(re.findall(r"Doc\s*::\s*Text\s*\(\s*\w+\s*,\s*(\w+)\s*\)", src)))
def rewrites(src):
    w = "|".join(names(src)) or "\0"
    return [
     (r"& ([\w .]+?) as & \[ Chunk \]", r"\1 . as_slice ( )", "`&V as &[Chunk]` written V.as_slice()"),
     (r"(\w+) \. ends_with \( ('(?:[^'\\]|\\.)+') \)", r"vx_ends_with_char ( & \1 , \2 )", "`S.ends_with(c)` written vx_ends_with_char(&S, c)"),
     (r"\b(\w+) == (\"(?:[^\"\\]|\\.)*\")", r"vx_is ( \1 , \2 )", "`S == \"..\"` written vx_is(S, \"..\")"),
     (r"(\+=|-=) (%s)\b" % w, r"\1 * \2", "`+= &u32` written with a dereference"),
    ]
def build(src):
    x = Extract(src, "doc.rs")
    text = x.build(CONTRACTS, drop=("struct PrettyConfig", "impl PrettyConfig"), rewrite=rewrites(src))
    extra = set(x.shape()) - set(CONTRACTS) - {"PrettyConfig::new"}
    spec = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "doc_spec.rs")).read()
    spec += open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "doc_lemmas.rs")).read()
    return PRELUDE + spec + "\n// ---- extracted from /repo/src/doc.rs\n" + text + "\n}\nfn main() {}\n", x.log, sorted(extra)
