pub broadcast proof fn l_srcs_add(a: Seq<Comment>, b: Seq<Comment>) ensures #[trigger] srcs(a + b) == srcs(a) + srcs(b) { assert(srcs(a + b) =~= srcs(a) + srcs(b)); }
pub broadcast proof fn l_srcs_push(a: Seq<Comment>, c: Comment) ensures #[trigger] srcs(a.push(c)) == srcs(a).push(c@) { assert(srcs(a.push(c)) =~= srcs(a).push(c@)); }
pub broadcast proof fn l_srcs_none(a: Seq<Comment>) requires a.len() == 0 ensures #[trigger] srcs(a) == Seq::<GNode>::empty() { assert(srcs(a) =~= Seq::<GNode>::empty()); }
// ---- the state of the loop over the children, i of them done
pub open spec fn fresh(n: GNode, i: int, m: Map<usize, Bk>) -> bool { forall|k: int, x: usize| i <= k < n.children.len() && #[trigger] ids(n.children[k], x) ==> !m.contains_key(x) }
pub open spec fn outside(n: GNode, m0: Map<usize, Bk>, m: Map<usize, Bk>) -> bool {
    &&& forall|x: usize| #![trigger bk(m, x)] #![trigger bk(m0, x)] #![trigger m.contains_key(x)] #![trigger m0.contains_key(x)] !ids(n, x) ==> m.contains_key(x) == m0.contains_key(x) && bk(m, x) == bk(m0, x)
    &&& m.contains_key(n.id) && m[n.id] == bk(m0, n.id)
}
pub open spec fn inv(n: GNode, i: int, m: Map<usize, Bk>, m0: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>) -> bool {
    &&& 0 <= i <= n.children.len() && bk(m0, n.id).dang.len() == 0
    &&& flat(n, i, m) + p == docs(n, i)
    &&& match last { None => la(n, i) < 0, Some((id, row)) => la(n, i) >= 0 && id == n.children[la(n, i)].id && row == n.children[la(n, i)].end_row }
    &&& fresh(n, i, m) && outside(n, m0, m)
    &&& p.len() > 0 && la(n, i) >= 0 ==> stop(n, i) || forall|k: int| i <= k < n.children.len() ==> (#[trigger] n.children[k]).end_row > n.children[la(n, i)].end_row
    &&& forall|k: int| 0 <= k < i && holds(n.children[k]) ==> neat(#[trigger] n.children[k], m)
}
// what one round does to the map, the pending comments and the last child
pub open spec fn step(n: GNode, i: int, m: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>, m2: Map<usize, Bk>, p2: Seq<GNode>, last2: Option<(usize, usize)>) -> bool {
    let c = n.children[i];
    if c.extra { last2 == last && (kept(n, i, m, p, last, m2, p2) || put(n, i, m, p, last, m2, p2)) }
    else if holds(c) {
        &&& last2 == Some((c.id, c.end_row)) && p2.len() == 0
        &&& bk(m2, c.id).pre =~= bk(m, c.id).pre + p && bk(m2, c.id).post == bk(m, c.id).post
        &&& forall|x: usize| #![trigger bk(m2, x)] #![trigger bk(m, x)] #![trigger m2.contains_key(x)] #![trigger m.contains_key(x)] !ids(c, x) ==> m2.contains_key(x) == m.contains_key(x) && bk(m2, x) == bk(m, x)
        &&& inner(c, m2) == docs(c, c.children.len() as int) && neat(c, m2)
    } else { last2 == last && p2 == p && m2 == m }
}
// the comment waits for the next child
pub open spec fn kept(n: GNode, i: int, m: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>, m2: Map<usize, Bk>, p2: Seq<GNode>) -> bool {
    m2 == m && p2 =~= p.push(n.children[i]) && match last { None => true, Some((id, row)) => stop(n, i + 1) || n.children[i].end_row != row }
}
// the comment stands behind the last child
pub open spec fn put(n: GNode, i: int, m: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>, m2: Map<usize, Bk>, p2: Seq<GNode>) -> bool {
    p2 =~= p && match last { None => false, Some((id, row)) => m2 =~~= m.insert(id, Bk { pre: bk(m, id).pre, post: bk(m, id).post.push(n.children[i]), dang: bk(m, id).dang }) && !stop(n, i + 1) && n.children[i].end_row == row }
}

proof fn l_la(n: GNode, k: int) ensures la(n, k) < k || k <= 0, la(n, k) >= -1, la(n, k) >= 0 ==> holds(n.children[la(n, k)]), forall|j: int| la(n, k) < j < k ==> !holds(#[trigger] n.children[j]) decreases k
{ if k > 0 { l_la(n, k - 1); } }
proof fn l_id(n: GNode) ensures ids(n, n.id) {}
// what is said about the buckets of a tree depends on them alone
proof fn l_inner(n: GNode, a: Map<usize, Bk>, b: Map<usize, Bk>)
    requires same(a, b, n), bk(a, n.id).dang == bk(b, n.id).dang
    ensures inner(n, a) == inner(n, b)
    decreases n, n.children.len() + 1
{ if la(n, n.children.len() as int) >= 0 { l_flat(n, n.children.len() as int, a, b); } }
proof fn l_flat(n: GNode, k: int, a: Map<usize, Bk>, b: Map<usize, Bk>)
    requires 0 <= k <= n.children.len(), forall|j: int, x: usize| #![trigger ids(n.children[j], x), bk(a, x)] #![trigger ids(n.children[j], x), bk(b, x)] #![trigger ids(n.children[j], x), a.contains_key(x)] #![trigger ids(n.children[j], x), b.contains_key(x)] 0 <= j < k && ids(n.children[j], x) ==> a.contains_key(x) == b.contains_key(x) && bk(a, x) == bk(b, x)
    ensures flat(n, k, a) == flat(n, k, b)
    decreases n, k
{
    if k > 0 {
        l_flat(n, k - 1, a, b);
        let c = n.children[k - 1];
        l_id(c);
        assert forall|x: usize| #![trigger bk(a, x)] #![trigger bk(b, x)] #![trigger a.contains_key(x)] #![trigger b.contains_key(x)] below(c, x) implies a.contains_key(x) == b.contains_key(x) && bk(a, x) == bk(b, x) by { assert(ids(n.children[k - 1], x)); }
        l_inner(c, a, b);
    }
}
proof fn l_neat(n: GNode, a: Map<usize, Bk>, b: Map<usize, Bk>)
    requires neat(n, a), same(a, b, n), b.contains_key(n.id), bk(a, n.id).dang == bk(b, n.id).dang
    ensures neat(n, b)
    decreases n
{
    assert forall|k: int| 0 <= k < n.children.len() && holds(n.children[k]) implies neat(#[trigger] n.children[k], b) by {
        let c = n.children[k];
        assert(neat(c, a)); l_id(c);
        assert(below(n, c.id)) by { assert(ids(n.children[k], c.id)); }
        assert(bk(a, c.id) == bk(b, c.id));
        assert forall|x: usize| #![trigger bk(a, x)] #![trigger bk(b, x)] #![trigger a.contains_key(x)] #![trigger b.contains_key(x)] below(c, x) implies a.contains_key(x) == b.contains_key(x) && bk(a, x) == bk(b, x) by { assert(ids(n.children[k], x)); assert(below(n, x)); }
        l_neat(c, a, b);
    }
}
// more comments behind the last child
proof fn l_post(n: GNode, i: int, m: Map<usize, Bk>, q: Seq<GNode>)
    requires wft(n), 0 <= i <= n.children.len(), la(n, i) >= 0
    ensures ({
        let c = n.children[la(n, i)];
        let m2 = m.insert(c.id, Bk { pre: bk(m, c.id).pre, post: bk(m, c.id).post + q, dang: bk(m, c.id).dang });
        &&& flat(n, i, m2) == flat(n, i, m) + q
        &&& forall|k: int| 0 <= k < i && holds(n.children[k]) && neat(n.children[k], m) ==> neat(#[trigger] n.children[k], m2)
        &&& fresh(n, i, m) ==> fresh(n, i, m2)
    })
{
    l_la(n, i);
    let l = la(n, i);
    let c = n.children[l];
    let m2 = m.insert(c.id, Bk { pre: bk(m, c.id).pre, post: bk(m, c.id).post + q, dang: bk(m, c.id).dang });
    l_id(c);
    assert forall|j: int, x: usize| #![trigger ids(n.children[j], x), bk(m, x)] #![trigger ids(n.children[j], x), bk(m2, x)] #![trigger ids(n.children[j], x), m.contains_key(x)] #![trigger ids(n.children[j], x), m2.contains_key(x)] 0 <= j < l && ids(n.children[j], x) implies m.contains_key(x) == m2.contains_key(x) && bk(m, x) == bk(m2, x) by { assert(apart(n.children[j], n.children[l])); }
    l_flat(n, l, m, m2);
    assert(wft(c));
    l_own(c);
    assert forall|x: usize| #![trigger bk(m, x)] #![trigger bk(m2, x)] #![trigger m.contains_key(x)] #![trigger m2.contains_key(x)] below(c, x) implies m.contains_key(x) == m2.contains_key(x) && bk(m, x) == bk(m2, x) by { assert(x != c.id); }
    l_inner(c, m, m2);
    assert(flat(n, l + 1, m2) =~= flat(n, l + 1, m) + q);
    l_tail(n, l + 1, i, m); l_tail(n, l + 1, i, m2);
    assert forall|k: int| 0 <= k < i && holds(n.children[k]) && neat(n.children[k], m) implies neat(#[trigger] n.children[k], m2) by {
        let d = n.children[k];
        assert(wft(d)); l_own(d); l_id(d);
        assert forall|x: usize| #![trigger bk(m, x)] #![trigger bk(m2, x)] #![trigger m.contains_key(x)] #![trigger m2.contains_key(x)] below(d, x) implies m.contains_key(x) == m2.contains_key(x) && bk(m, x) == bk(m2, x) by {
            l_below(d, x);
            if k < l { assert(apart(n.children[k], n.children[l])); } else if k > l { assert(!holds(n.children[k])); }
        }
        if k < l { assert(apart(n.children[k], n.children[l])); }
        l_neat(d, m, m2);
    }
    if fresh(n, i, m) {
        assert forall|k: int, x: usize| i <= k < n.children.len() && #[trigger] ids(n.children[k], x) implies !m2.contains_key(x) by { assert(apart(n.children[l], n.children[k])); }
    }
}
proof fn l_below(n: GNode, x: usize) requires below(n, x) ensures ids(n, x) {}
proof fn l_own(n: GNode) requires wft(n) ensures !below(n, n.id) {}
// children nothing can be attached to add nothing
proof fn l_tail(n: GNode, j: int, i: int, m: Map<usize, Bk>)
    requires 0 <= j <= i <= n.children.len(), forall|k: int| j <= k < i ==> !holds(#[trigger] n.children[k])
    ensures flat(n, i, m) == flat(n, j, m)
    decreases i - j
{ if j < i { l_tail(n, j, i - 1, m); assert(flat(n, i, m) =~= flat(n, i - 1, m)); } }
proof fn l_flat0(n: GNode, i: int, m: Map<usize, Bk>)
    requires la(n, i) < 0, 0 <= i <= n.children.len()
    ensures flat(n, i, m) == Seq::<GNode>::empty()
{ l_la(n, i); l_tail(n, 0, i, m); }

proof fn l_start(n: GNode, m0: Map<usize, Bk>, m: Map<usize, Bk>)
    requires bk(m0, n.id).dang.len() == 0, m == m0.insert(n.id, bk(m0, n.id)), forall|x: usize| #[trigger] below(n, x) ==> !m0.contains_key(x), wft(n)
    ensures inv(n, 0, m, m0, seq![], None)
{
    l_id(n); l_own(n);
    assert(flat(n, 0, m) + Seq::<GNode>::empty() =~= docs(n, 0));
    assert forall|k: int, x: usize| 0 <= k < n.children.len() && #[trigger] ids(n.children[k], x) implies !m.contains_key(x) by { assert(below(n, x)); }
}
proof fn l_leaf(n: GNode, m0: Map<usize, Bk>, m: Map<usize, Bk>)
    requires n.children.len() == 0, bk(m0, n.id).dang.len() == 0, m == m0.insert(n.id, bk(m0, n.id))
    ensures inner(n, m) == docs(n, 0), neat(n, m)
{ assert(inner(n, m) =~= docs(n, 0)); }
// the call for a child may be made
proof fn l_enter(n: GNode, i: int, m: Map<usize, Bk>, m0: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>)
    requires wft(n), inv(n, i, m, m0, p, last), i < n.children.len()
    ensures wft(n.children[i]), !m.contains_key(n.children[i].id), n.children[i].id != n.id,
        forall|x: usize| #[trigger] below(n.children[i], x) ==> !m.contains_key(x) && x != n.children[i].id && x != n.id
{
    let c = n.children[i];
    assert(wft(c)); l_own(c); l_id(c);
    assert(ids(n.children[i], c.id));
    assert forall|x: usize| #[trigger] below(c, x) implies !m.contains_key(x) && x != c.id && x != n.id by { l_below(c, x); assert(ids(n.children[i], x)); }
}
proof fn l_step(n: GNode, i: int, m: Map<usize, Bk>, m0: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>, m2: Map<usize, Bk>, p2: Seq<GNode>, last2: Option<(usize, usize)>)
    requires wft(n), inv(n, i, m, m0, p, last), i < n.children.len(), step(n, i, m, p, last, m2, p2, last2)
    ensures inv(n, i + 1, m2, m0, p2, last2)
{
    let c = n.children[i];
    l_la(n, i); l_la(n, i + 1);
    if c.extra {
        if kept(n, i, m, p, last, m2, p2) {
            assert(flat(n, i + 1, m) =~= flat(n, i, m));
            assert(flat(n, i + 1, m2) + p2 =~= docs(n, i + 1)) by { assert(docs(n, i + 1) == docs(n, i) + seq![c]); }
            if la(n, i) >= 0 && !stop(n, i + 1) {
                assert forall|k: int| i + 1 <= k < n.children.len() implies (#[trigger] n.children[k]).end_row > n.children[la(n, i)].end_row by {
                    assert(n.children[la(n, i)].end_row <= n.children[i].end_row); assert(n.children[i].end_row <= n.children[k].end_row);
                }
            }
        } else {
            let id = (last->0).0;
            let l = la(n, i);
            l_id(n.children[l]);
            // nothing is pending, or the comment would have to wait too
            if p.len() > 0 { assert(n.children[i].end_row == n.children[l].end_row); assert(stop(n, i) == stop(n, i + 1)); assert(false); }
            l_post(n, i, m, seq![c]);
            assert(bk(m, id).post + seq![c] =~= bk(m, id).post.push(c));
            assert(flat(n, i + 1, m2) =~= flat(n, i, m2));
            assert(docs(n, i + 1) == docs(n, i) + seq![c]);
            assert(flat(n, i + 1, m2) + p2 =~= docs(n, i + 1));
            l_out(n, l, m0, m, m2);
        }
    } else if holds(c) {
        let o = bk(m, c.id);
        assert(ids(n.children[i], c.id)) by { l_id(c); }
        assert(o == no_bk());
        assert forall|j: int, x: usize| #![trigger ids(n.children[j], x), bk(m, x)] #![trigger ids(n.children[j], x), bk(m2, x)] #![trigger ids(n.children[j], x), m.contains_key(x)] #![trigger ids(n.children[j], x), m2.contains_key(x)] 0 <= j < i && ids(n.children[j], x) implies m.contains_key(x) == m2.contains_key(x) && bk(m, x) == bk(m2, x) by { assert(apart(n.children[j], n.children[i])); }
        l_flat(n, i, m, m2);
        assert(flat(n, i + 1, m2) =~= flat(n, i, m) + p + docs(c, c.children.len() as int));
        assert(flat(n, i + 1, m2) + p2 =~= docs(n, i + 1));
        assert forall|k: int, x: usize| i + 1 <= k < n.children.len() && #[trigger] ids(n.children[k], x) implies !m2.contains_key(x) by { assert(apart(n.children[i], n.children[k])); assert(bk(m2, x) == bk(m, x)); }
        assert forall|k: int| 0 <= k < i + 1 && holds(n.children[k]) implies neat(#[trigger] n.children[k], m2) by {
            if k < i {
                let d = n.children[k];
                l_id(d);
                assert(apart(n.children[k], n.children[i]));
                assert(neat(n.children[k], m));
                assert(bk(m2, d.id) == bk(m, d.id));
                assert forall|x: usize| #![trigger bk(m, x)] #![trigger bk(m2, x)] #![trigger m.contains_key(x)] #![trigger m2.contains_key(x)] below(d, x) implies m.contains_key(x) == m2.contains_key(x) && bk(m, x) == bk(m2, x) by { l_below(d, x); assert(bk(m2, x) == bk(m, x)); }
                l_neat(d, m, m2);
            }
        }
        l_out(n, i, m0, m, m2);
    } else {
        assert(flat(n, i + 1, m) =~= flat(n, i, m));
        assert(c.children.len() == 0) by { assert(wft(n.children[i])); }
        assert(docs(n, i + 1) =~= docs(n, i));
        if la(n, i) >= 0 && p.len() > 0 && stop(n, i) { assert(punct(c)); }
    }
}
// what changed lies below n
proof fn l_out(n: GNode, j: int, m0: Map<usize, Bk>, m: Map<usize, Bk>, m2: Map<usize, Bk>)
    requires wft(n), 0 <= j < n.children.len(), outside(n, m0, m), forall|x: usize| #![trigger bk(m2, x)] #![trigger bk(m, x)] #![trigger m2.contains_key(x)] #![trigger m.contains_key(x)] !ids(n.children[j], x) ==> m2.contains_key(x) == m.contains_key(x) && bk(m2, x) == bk(m, x)
    ensures outside(n, m0, m2)
{
    assert(!ids(n.children[j], n.id));
    assert(bk(m2, n.id) == bk(m, n.id));
    assert forall|x: usize| #![trigger bk(m2, x)] #![trigger bk(m0, x)] #![trigger m2.contains_key(x)] #![trigger m0.contains_key(x)] !ids(n, x) implies m2.contains_key(x) == m0.contains_key(x) && bk(m2, x) == bk(m0, x) by { assert(!ids(n.children[j], x)); assert(bk(m2, x) == bk(m, x)); assert(bk(m, x) == bk(m0, x)); }
}
// the comments left over at the end
proof fn l_end(n: GNode, m: Map<usize, Bk>, m0: Map<usize, Bk>, p: Seq<GNode>, last: Option<(usize, usize)>, m2: Map<usize, Bk>)
    requires wft(n), inv(n, n.children.len() as int, m, m0, p, last),
        match last { Some((id, _)) => m2 =~~= m.insert(id, Bk { pre: bk(m, id).pre, post: bk(m, id).post + p, dang: bk(m, id).dang }), None => m2 =~~= m.insert(n.id, Bk { pre: bk(m, n.id).pre, post: bk(m, n.id).post, dang: bk(m, n.id).dang + p }) }
    ensures inner(n, m2) == docs(n, n.children.len() as int), neat(n, m2), bk(m2, n.id).pre == bk(m0, n.id).pre, bk(m2, n.id).post == bk(m0, n.id).post,
        forall|x: usize| #![trigger bk(m2, x)] #![trigger bk(m0, x)] #![trigger m2.contains_key(x)] #![trigger m0.contains_key(x)] !ids(n, x) ==> m2.contains_key(x) == m0.contains_key(x) && bk(m2, x) == bk(m0, x)
{
    let len = n.children.len() as int;
    l_la(n, len); l_id(n);
    if last is Some {
        let l = la(n, len);
        l_post(n, len, m, p);
        l_id(n.children[l]);
        l_out(n, l, m0, m, m2);
    } else {
        l_flat0(n, len, m);
        assert(inner(n, m2) =~= docs(n, len));
    }
}
