// ---- the syntax tree as tree-sitter shows it: a ghost tree, a node handle and a cursor
pub struct GNode { pub id: usize, pub named: bool, pub extra: bool, pub kind: Seq<char>, pub end_row: usize, pub children: Seq<GNode> }

#[verifier::external_body] #[derive(Clone, Copy)]
pub struct Node { x: u64 }
pub struct Point { pub row: usize, pub column: usize }
impl Node {
    pub uninterp spec fn view(&self) -> GNode;
    #[verifier::external_body] pub fn is_named(&self) -> (r: bool) ensures r == self@.named { unimplemented!() }
    #[verifier::external_body] pub fn is_extra(&self) -> (r: bool) ensures r == self@.extra { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> (r: usize) ensures r == self@.id { unimplemented!() }
    #[verifier::external_body] pub fn kind(&self) -> (r: &'static str) ensures r@ == self@.kind { unimplemented!() }
    #[verifier::external_body] pub fn child_count(&self) -> (r: usize) ensures r == self@.children.len() { unimplemented!() }
    #[verifier::external_body] pub fn end_position(&self) -> (r: Point) ensures r.row == self@.end_row { unimplemented!() }
}
// a cursor is where it stands: the siblings and the index at every level, the innermost last
pub struct Frame { pub sibs: Seq<GNode>, pub i: int }
pub open spec fn wfc(c: Seq<Frame>) -> bool { c.len() > 0 && 0 <= c.last().i < c.last().sibs.len() }
pub open spec fn cur(c: Seq<Frame>) -> GNode { c.last().sibs[c.last().i] }
pub open spec fn moved(c: Seq<Frame>, i: int) -> Seq<Frame> { c.drop_last().push(Frame { sibs: c.last().sibs, i }) }
#[verifier::external_body]
pub struct TreeCursor { x: u64 }
impl TreeCursor {
    pub uninterp spec fn view(&self) -> Seq<Frame>;
    #[verifier::external_body] pub fn node(&self) -> (r: Node) ensures r@ == cur(self@) { unimplemented!() }
    #[verifier::external_body] pub fn goto_first_child(&mut self) -> (r: bool)
        ensures r == (cur(old(self)@).children.len() > 0), r ==> final(self)@ == old(self)@.push(Frame { sibs: cur(old(self)@).children, i: 0 }), !r ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn goto_next_sibling(&mut self) -> (r: bool)
        ensures r == (old(self)@.len() > 1 && old(self)@.last().i + 1 < old(self)@.last().sibs.len()),
            r ==> final(self)@ == moved(old(self)@, old(self)@.last().i + 1), !r ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body] pub fn goto_parent(&mut self) -> (r: bool)
        ensures r == (old(self)@.len() > 1), r ==> final(self)@ == old(self)@.drop_last(), !r ==> final(self)@ == old(self)@ { unimplemented!() }
}
impl Clone for TreeCursor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }

// ---- comments and the comment map
#[verifier::external_body]
pub struct Comment { x: u64 }
impl Comment {
    pub uninterp spec fn view(&self) -> GNode;
    // (the contract of Comment::from_node is checked in vf/helpers.py)
    #[verifier::external_body] pub fn from_node(n: Node) -> (r: Comment) ensures r@ == n@ { unimplemented!() }
}
pub struct CommentBucket { pub pre_comments: Vec<Comment>, pub post_comments: Vec<Comment>, pub dangling_comments: Vec<Comment> }
pub struct Bk { pub pre: Seq<GNode>, pub post: Seq<GNode>, pub dang: Seq<GNode> }
pub open spec fn srcs(v: Seq<Comment>) -> Seq<GNode> { v.map_values(|c: Comment| c@) }
impl View for CommentBucket { type V = Bk; open spec fn view(&self) -> Bk { Bk { pre: srcs(self.pre_comments@), post: srcs(self.post_comments@), dang: srcs(self.dangling_comments@) } } }
pub open spec fn no_bk() -> Bk { Bk { pre: seq![], post: seq![], dang: seq![] } }
#[verifier::external_body]
pub struct CommentMap { x: u64 }
impl CommentMap { pub uninterp spec fn view(&self) -> Map<usize, Bk>; }
// map.entry(k).or_insert_with(CommentBucket::new)
#[verifier::external_body]
pub fn vx_bucket<'a>(m: &'a mut CommentMap, k: usize) -> (r: &'a mut CommentBucket)
    ensures r@ == bk(old(m)@, k), final(m)@ == old(m)@.insert(k, final(r)@) { unimplemented!() }

// ---- the contract
pub open spec fn bk(m: Map<usize, Bk>, k: usize) -> Bk { if m.contains_key(k) { m[k] } else { no_bk() } }
pub open spec fn punct(n: GNode) -> bool { n.kind == ","@ || n.kind == ";"@ }
// comments are attached to named nodes and to these tokens
pub open spec fn token(n: GNode) -> bool { punct(n) || n.kind == "else"@ }
pub open spec fn holds(n: GNode) -> bool { !n.extra && (n.named || token(n)) }
pub open spec fn ids(n: GNode, x: usize) -> bool decreases n { (x == n.id || exists|k: int| 0 <= k < n.children.len() && ids(#[trigger] n.children[k], x)) }
pub open spec fn apart(a: GNode, b: GNode) -> bool { forall|x: usize| !(#[trigger] ids(a, x) && #[trigger] ids(b, x)) }
pub open spec fn below(n: GNode, x: usize) -> bool { (exists|k: int| 0 <= k < n.children.len() && ids(#[trigger] n.children[k], x)) }
// what tree-sitter guarantees: ids are unique, siblings are in order, comments and other tokens are leaves, and comments are no tokens
pub open spec fn wft(n: GNode) -> bool decreases n {
    &&& forall|k: int| 0 <= k < n.children.len() ==> wft(#[trigger] n.children[k])
    &&& forall|k: int| 0 <= k < n.children.len() ==> !ids(#[trigger] n.children[k], n.id)
    &&& forall|j: int, k: int| 0 <= j < k < n.children.len() ==> apart(#[trigger] n.children[j], #[trigger] n.children[k])
    &&& forall|j: int, k: int| 0 <= j <= k < n.children.len() ==> (#[trigger] n.children[j]).end_row <= (#[trigger] n.children[k]).end_row
    &&& n.extra ==> !token(n)
    &&& !n.extra && !holds(n) ==> n.children.len() == 0
}
// the comments below a node in the order of the source
pub open spec fn docs(n: GNode, k: int) -> Seq<GNode> decreases n, k {
    if k <= 0 || k > n.children.len() { seq![] } else { docs(n, k - 1) + (if n.children[k - 1].extra { seq![n.children[k - 1]] } else { docs(n.children[k - 1], n.children[k - 1].children.len() as int) }) }
}
// the last child in front of k that comments can be attached to, -1 if there is none
pub open spec fn la(n: GNode, k: int) -> int decreases k { if k <= 0 { -1 } else if holds(n.children[k - 1]) { k - 1 } else { la(n, k - 1) } }
// the comments of the buckets below a node, in the order in which the printing rules print them
pub open spec fn inner(n: GNode, m: Map<usize, Bk>) -> Seq<GNode> decreases n, n.children.len() + 1 {
    if la(n, n.children.len() as int) >= 0 { flat(n, n.children.len() as int, m) } else { bk(m, n.id).dang }
}
pub open spec fn flat(n: GNode, k: int, m: Map<usize, Bk>) -> Seq<GNode> decreases n, k {
    if k <= 0 || k > n.children.len() { seq![] } else { flat(n, k - 1, m) + (if holds(n.children[k - 1]) { bk(m, n.children[k - 1].id).pre + inner(n.children[k - 1], m) + bk(m, n.children[k - 1].id).post } else { seq![] }) }
}
// every bucket a rule asks for exists, and comments dangle only where there is nothing to attach them to
pub open spec fn neat(n: GNode, m: Map<usize, Bk>) -> bool decreases n {
    &&& m.contains_key(n.id)
    &&& la(n, n.children.len() as int) >= 0 ==> m[n.id].dang.len() == 0
    &&& forall|k: int| 0 <= k < n.children.len() && holds(n.children[k]) ==> neat(#[trigger] n.children[k], m)
}
// behind the comments from k on stands punctuation, or nothing
pub open spec fn stop(n: GNode, k: int) -> bool decreases n.children.len() - k {
    if k < 0 || k >= n.children.len() { true } else if n.children[k].extra { stop(n, k + 1) } else { punct(n.children[k]) }
}
pub open spec fn same(a: Map<usize, Bk>, b: Map<usize, Bk>, n: GNode) -> bool {
    forall|x: usize| #![trigger bk(a, x)] #![trigger bk(b, x)] #![trigger a.contains_key(x)] #![trigger b.contains_key(x)] below(n, x) ==> a.contains_key(x) == b.contains_key(x) && bk(a, x) == bk(b, x)
}
