"""Contracts of the functions of /repo/src/utility.rs that attach the comments to the nodes, for Verus."""
import re, os
from .extract import Extract, Misfit

PRELUDE = '''use vstd::prelude::*;
verus! {
#[verifier::external_body]
fn vx_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
'''
TRUST = ["Verus 0.2026.09.13 and its z3; vstd's contracts of Vec and Option",
         "tree-sitter's node handles and cursors as modelled in verus/comments_spec.rs (a cursor moves over a finite tree); ids are unique in a tree, siblings end in the order of their rows, anonymous tokens have no children, comments no comments inside",
         "`map.entry(k).or_insert_with(CommentBucket::new)` as vx_bucket: the bucket of k, an empty one if there was none; no other bucket changes",
         "Comment::from_node(n) is the comment of n (its contract is checked in vf/helpers.py)",
         "the annotating extractor vf/extract.py"]

COMMON = '''c0 == old(cursor)@, n == cur(c0), wfc(c0), wft(n), holds(n), m0 == old(comment_map)@, len == n.children.len(), current_id == n.id,
    cursor@.len() == c0.len() + 1, cursor@.drop_last() == c0, cursor@.last().sibs == n.children,
    bk(m0, n.id).dang.len() == 0,'''
def contracts(last, pend, opt, peek):
    return {
 "is_punctuation_node": {"ret": "r", "spec": "ensures r == punct(node@)"},
 "is_associable_unnamed_node": {"ret": "r", "spec": "ensures r == token(node@)"},
 "collect_comments": {
  "spec": '''requires wfc(old(cursor)@), wft(cur(old(cursor)@)), !cur(old(cursor)@).extra,
    forall|x: usize| #[trigger] below(cur(old(cursor)@), x) ==> !old(comment_map)@.contains_key(x),
    bk(old(comment_map)@, cur(old(cursor)@).id).dang.len() == 0,
ensures final(cursor)@ == old(cursor)@,
    forall|x: usize| #![trigger bk(final(comment_map)@, x)] #![trigger bk(old(comment_map)@, x)] #![trigger final(comment_map)@.contains_key(x)] #![trigger old(comment_map)@.contains_key(x)] !ids(cur(old(cursor)@), x) ==> final(comment_map)@.contains_key(x) == old(comment_map)@.contains_key(x) && bk(final(comment_map)@, x) == bk(old(comment_map)@, x),
    holds(cur(old(cursor)@)) ==> inner(cur(old(cursor)@), final(comment_map)@) == docs(cur(old(cursor)@), cur(old(cursor)@).children.len() as int),
    holds(cur(old(cursor)@)) ==> neat(cur(old(cursor)@), final(comment_map)@),
    holds(cur(old(cursor)@)) ==> bk(final(comment_map)@, cur(old(cursor)@).id).pre == bk(old(comment_map)@, cur(old(cursor)@).id).pre,
    holds(cur(old(cursor)@)) ==> bk(final(comment_map)@, cur(old(cursor)@).id).post == bk(old(comment_map)@, cur(old(cursor)@).id).post,
decreases cur(old(cursor)@)''',
  "start": '''broadcast use l_srcs_add, l_srcs_push, l_srcs_none;
let ghost c0 = cursor@; let ghost n = cur(c0); let ghost m0 = comment_map@; let ghost len = n.children.len() as int;
let ghost mut i: int = 0; let ghost mut m1 = m0; let ghost mut p1: Seq<GNode> = seq![]; let ghost mut l1: Option<(usize, usize)> = None;
proof {
    l_id(n); l_own(n);
    if bk(m0, n.id).dang.len() == 0 { l_start(n, m0, m0.insert(n.id, bk(m0, n.id))); if len == 0 { l_leaf(n, m0, m0.insert(n.id, bk(m0, n.id))); } }
    assert(m0.contains_key(n.id) ==> m0.insert(n.id, bk(m0, n.id)) =~= m0);
    m1 = m0.insert(n.id, bk(m0, n.id));
}''',
  "loops": [
   {"spec": '''invariant_except_break
    %s
    0 <= cursor@.last().i < len,
    inv(n, cursor@.last().i, comment_map@, m0, srcs(%s@), %s),
ensures
    cursor@.len() == c0.len() + 1, cursor@.drop_last() == c0,
    0 <= i, i + 1 == len, inv(n, i, m1, m0, p1, l1), step(n, i, m1, p1, l1, comment_map@, srcs(%s@), %s),
decreases len - cursor@.last().i''' % (COMMON, pend, last, pend, last),
    "start": '''proof { i = cursor@.last().i; m1 = comment_map@; p1 = srcs(%s@); l1 = %s; l_enter(n, i, m1, m0, p1, l1); }''' % (pend, last),
    "end": '''proof { assert(i < len); l_step(n, i, m1, m0, p1, l1, comment_map@, srcs(%s@), %s); }''' % (pend, last),
    "after": '''let ghost m2 = comment_map@; let ghost p2 = srcs(%s@); let ghost l2 = %s;
proof { l_step(n, i, m1, m0, p1, l1, m2, p2, l2); }''' % (pend, last)},
   {"spec": '''invariant_except_break
    %s is Some, %s->0@ == n.children[i], comment_map@ == m1, srcs(%s@) == p1,
    i <= %s@.last().i < len, stop(n, i + 1) == stop(n, %s@.last().i + 1),
invariant
    %s@.len() == c0.len() + 1, %s@.last().sibs == n.children,
ensures kept(n, i, m1, p1, l1, comment_map@, srcs(%s@)) || put(n, i, m1, p1, l1, comment_map@, srcs(%s@)),
decreases len - %s@.last().i''' % (opt, opt, pend, peek, peek, peek, peek, pend, pend, peek)}],
  "attr": "#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
  "end": "proof { l_end(n, m2, m0, p2, l2, comment_map@); }"}}

REWRITES = [
 (r"(\w+) \. entry \( (\w+) \) \. or_insert_with \( CommentBucket :: new \)", r"vx_bucket ( \1 , \2 )", "`M.entry(K).or_insert_with(CommentBucket::new)` written vx_bucket(M, K)"),
]
def matches(m):
    e, alts = m.group(1), re.findall(r'"(?:[^"\\]|\\.)*"', m.group(2))
    return "( " + " || ".join("vx_is ( %s , %s )" % (e, a) for a in alts) + " )"
MATCHES = (r'matches ! \( ([\w .()]+?) ,\s+((?:"(?:[^"\\]|\\.)*"(?: \| )?)+) \)', matches, "`matches!(E, \"a\" | \"b\")` on a string written vx_is(E, \"a\") || vx_is(E, \"b\")")

def name(src, rx, what):
    m = re.findall(rx, src)
    if len(m) != 1: raise Misfit("collect_comments: no unique %s" % what)
    return m[0]
def build(src):
    x = Extract(src, "utility.rs")
    fns = {n: (f, j, e) for n, f, j, e in x.fns()}
    if "collect_comments" not in fns: raise Misfit("function collect_comments not found in utility.rs")
    f, j, e = fns["collect_comments"]
    body = " ".join(y[0] for y in x.t[f:e + 1])
    pend = name(body, r"let mut (\w+)(?: : Vec < (?:Comment|_) >)? = (?:Vec :: new \( \)|vec ! \[ \])", "list of pending comments")
    last = name(body, r"let mut (\w+)(?: : Option < [^=]*>)? = None", "last node")
    peek = name(body, r"let mut (\w+)(?: : TreeCursor)? = cursor \. clone \( \)", "second cursor")
    opt = name(body, r"let mut (\w+)(?: : Option < [^=]*>)? = Some \( \w+ \)", "comment in hand")
    con = contracts(last, pend, opt, peek)
    text = x.build(con, rewrite=REWRITES + [MATCHES], only=set(con))
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus")
    spec = open(os.path.join(d, "comments_spec.rs")).read() + open(os.path.join(d, "comments_lemmas.rs")).read()
    return PRELUDE + spec + "\n// ---- extracted from /repo/src/utility.rs\n" + text + "\n}\nfn main() {}\n", x.log, con
