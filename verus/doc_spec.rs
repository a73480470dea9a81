// ------------------------------------------------------------------ specification
pub struct St { pub out: Seq<char>, pub pend: Option<nat> }
pub open spec fn spaces(n: nat) -> Seq<char> { Seq::new(n, |i: int| ' ') }
pub open spec fn flush(s: St) -> St {
    match s.pend { Some(i) => St { out: s.out.push('\n') + spaces(i), pend: None }, None => s }
}
pub open spec fn col(o: Seq<char>) -> nat decreases o.len() {
    if o.len() == 0 || o.last() == '\n' { 0 } else { 1 + col(o.drop_last()) }
}
pub enum Ev { W(nat), Brk, Fb }
/// what a construct contributes to the current line if it is laid out flat / not flat
spec fn la(d: &Doc, flat: bool) -> Seq<Ev> decreases d {
    match d {
        Doc::Newline => seq![Ev::Brk],
        Doc::NewlineWithNoIndent => seq![Ev::Brk],
        Doc::ForceBreak => seq![Ev::Fb],
        Doc::Text(t, w) => seq![Ev::W(*w as nat)],
        Doc::Softline => if flat { seq![Ev::W(1)] } else { seq![Ev::Brk] },
        Doc::Maybeline => if flat { seq![] } else { seq![Ev::Brk] },
        Doc::Flat(x) => la(*x, true),
        Doc::Indent(i, x) => la(*x, flat),
        Doc::Dedent(i, x) => la(*x, flat),
        Doc::Concat(v) => las(v@, v@.len(), flat),
        Doc::Choice(x, y) => if flat { la(*x, flat) } else { la(*y, flat) },
    }
}
/// of the last n elements of v
spec fn las(v: Seq<DocRef>, n: nat, flat: bool) -> Seq<Ev> decreases v, n {
    if n == 0 || n > v.len() { seq![] } else { la(v[v.len() - n], flat) + las(v, (n - 1) as nat, flat) }
}
spec fn la_stack(st: Seq<Chunk>) -> Seq<Ev> decreases st.len() {
    if st.len() == 0 { seq![] } else { la(st.last().doc_ref, st.last().flat) + la_stack(st.drop_last()) }
}
/// width up to the end of the line
spec fn width(e: Seq<Ev>) -> nat decreases e.len() {
    if e.len() == 0 { 0 } else { match e[0] { Ev::Brk => 0, Ev::W(n) => n + width(e.drop_first()), Ev::Fb => width(e.drop_first()) } }
}
spec fn forced(e: Seq<Ev>) -> bool decreases e.len() {
    if e.len() == 0 { false } else { match e[0] { Ev::Brk => false, Ev::W(n) => forced(e.drop_first()), Ev::Fb => true } }
}
/// P08: the line is not too wide, and nothing forces a break
spec fn fits_spec(c: Chunk, rest: Seq<Chunk>, max_width: nat, col: nat) -> bool {
    !forced(la(c.doc_ref, c.flat)) && width(la(c.doc_ref, c.flat) + la_stack(rest)) <= if col < max_width { (max_width - col) as nat } else { 0 }
}
spec fn mk<'a>(d: DocRef<'a>, ind: nat, flat: bool) -> Chunk<'a> { Chunk { doc_ref: d, indent: ind as u32, flat } }
/// the last n elements of v as a stack
spec fn tail<'a>(v: Seq<DocRef<'a>>, n: nat, ind: nat, flat: bool) -> Seq<Chunk<'a>> { Seq::new(n, |j: int| mk(v[v.len() - 1 - j], ind, flat)) }
spec fn lay<'a>(d: DocRef<'a>, ind: nat, flat: bool, rest: Seq<Chunk<'a>>, mw: nat, s: St) -> St decreases d, 0nat {
    match d {
        Doc::Newline => St { pend: Some(ind), ..s },
        Doc::NewlineWithNoIndent => St { out: s.out.push('\n'), pend: None },
        Doc::ForceBreak => s,
        Doc::Text(t, w) => { let f = flush(s); if t@ == " "@ && f.out.len() > 0 && f.out.last() == ' ' { f } else { St { out: f.out + t@, pend: None } } },
        Doc::Softline => if flat { St { out: s.out.push(' '), ..s } } else { St { pend: Some(ind), ..s } },
        Doc::Maybeline => if flat { s } else { St { pend: Some(ind), ..s } },
        Doc::Flat(x) => lay(*x, ind, true, rest, mw, s),
        Doc::Indent(i, x) => lay(*x, ind + *i as nat, flat, rest, mw, s),
        Doc::Dedent(i, x) => lay(*x, if ind < *i { 0 } else { (ind - *i) as nat }, flat, rest, mw, s),
        Doc::Concat(v) => lays(v@, v@.len(), ind, flat, rest, mw, s),
        Doc::Choice(x, y) => {
            let f = flush(s);
            if flat || fits_spec(mk(*x, ind, flat), rest, mw, col(f.out)) { lay(*x, ind, flat, rest, mw, f) } else { lay(*y, ind, flat, rest, mw, f) }
        },
    }
}
/// the last n elements of v, one behind the other
spec fn lays<'a>(v: Seq<DocRef<'a>>, n: nat, ind: nat, flat: bool, rest: Seq<Chunk<'a>>, mw: nat, s: St) -> St decreases v, n {
    if n == 0 || n > v.len() { s } else {
        lays(v, (n - 1) as nat, ind, flat, rest, mw, lay(v[v.len() - n], ind, flat, rest + tail(v, (n - 1) as nat, ind, flat), mw, s))
    }
}
spec fn lay_stack(st: Seq<Chunk>, mw: nat, s: St) -> St decreases st.len() {
    if st.len() == 0 { s } else { lay_stack(st.drop_last(), mw, lay(st.last().doc_ref, st.last().indent as nat, st.last().flat, st.drop_last(), mw, s)) }
}
spec fn start() -> St { St { out: seq![], pend: None } }
spec fn layout(d: DocRef, mw: nat) -> Seq<char> { flush(lay(d, 0, false, seq![], mw, start())).out }
// sizes
spec fn dsz(d: &Doc) -> nat decreases d {
    match d {
        Doc::Flat(x) => 1 + dsz(*x),
        Doc::Indent(i, x) => 1 + dsz(*x),
        Doc::Dedent(i, x) => 1 + dsz(*x),
        Doc::Concat(v) => 1 + dszs(v@, v@.len()),
        Doc::Choice(x, y) => 1 + dsz(*x) + dsz(*y),
        _ => 1,
    }
}
spec fn dszs(v: Seq<DocRef>, n: nat) -> nat decreases v, n { if n == 0 || n > v.len() { 0 } else { dsz(v[v.len() - n]) + dszs(v, (n - 1) as nat) } }
spec fn dsz_stack(st: Seq<Chunk>) -> nat decreases st.len() { if st.len() == 0 { 0 } else { dsz(st.last().doc_ref) + dsz_stack(st.drop_last()) } }
/// columns a document can take at most
spec fn wgt(d: &Doc) -> nat decreases d {
    match d {
        Doc::Text(t, w) => *w as nat,
        Doc::Softline => 1,
        Doc::Flat(x) => wgt(*x),
        Doc::Indent(i, x) => *i as nat + wgt(*x),
        Doc::Dedent(i, x) => wgt(*x),
        Doc::Concat(v) => wgts(v@, v@.len()),
        Doc::Choice(x, y) => if wgt(*x) < wgt(*y) { wgt(*y) } else { wgt(*x) },
        _ => 0,
    }
}
spec fn wgts(v: Seq<DocRef>, n: nat) -> nat decreases v, n { if n == 0 || n > v.len() { 0 } else { wgt(v[v.len() - n]) + wgts(v, (n - 1) as nat) } }
spec fn wgt_stack(st: Seq<Chunk>) -> nat decreases st.len() { if st.len() == 0 { 0 } else { wgt(st.last().doc_ref) + wgt_stack(st.drop_last()) } }
/// the width of a text is its number of characters, and texts do not contain line breaks (contract of DocBuilder::txt and its callers)
spec fn wf(d: &Doc) -> bool decreases d {
    match d {
        Doc::Text(t, w) => *w == t@.len() && !t@.contains('\n'),
        Doc::Flat(x) => wf(*x),
        Doc::Indent(i, x) => wf(*x),
        Doc::Dedent(i, x) => wf(*x),
        Doc::Concat(v) => wfs(v@, v@.len()),
        Doc::Choice(x, y) => wf(*x) && wf(*y),
        _ => true,
    }
}
spec fn wfs(v: Seq<DocRef>, n: nat) -> bool decreases v, n { n == 0 || n > v.len() || wf(v[v.len() - n]) && wfs(v, (n - 1) as nat) }
spec fn ok_stack(st: Seq<Chunk>, w: nat) -> bool { forall|i: int| 0 <= i < st.len() ==> wf((#[trigger] st[i]).doc_ref) && st[i].indent + wgt(st[i].doc_ref) <= w }

proof fn l_col(o: Seq<char>, t: Seq<char>) requires !t.contains('\n') ensures col(o + t) == col(o) + t.len() decreases t.len() {
    if t.len() == 0 { assert(o + t =~= o); } else {
        assert((o + t).drop_last() =~= o + t.drop_last());
        assert(t.last() != '\n') by { assert(t.contains(t[t.len() - 1])); };
        assert(!t.drop_last().contains('\n')) by { if t.drop_last().contains('\n') { let i = choose|i: int| 0 <= i < t.drop_last().len() && t.drop_last()[i] == '\n'; assert(t[i] == '\n'); } };
        l_col(o, t.drop_last());
    }
}
proof fn l_col_all() ensures forall|o: Seq<char>, t: Seq<char>| !t.contains('\n') ==> #[trigger] col(o + t) == col(o) + t.len()
{
    assert forall|o: Seq<char>, t: Seq<char>| !t.contains('\n') implies #[trigger] col(o + t) == col(o) + t.len() by { l_col(o, t); };
}
spec fn pend(b: NewlineBuffer) -> Option<nat> { if b.has_pending_newline { Some(b.indent_level as nat) } else { None } }
proof fn l_col_nl(o: Seq<char>, n: nat) ensures col(o.push('\n') + spaces(n)) == n {
    assert(!spaces(n).contains('\n'));
    l_col(o.push('\n'), spaces(n));
}
proof fn l_width(a: Ev, e: Seq<Ev>) ensures width(seq![a] + e) == (match a { Ev::Brk => 0, Ev::W(n) => n + width(e), Ev::Fb => width(e) }),
    forced(seq![a] + e) == (match a { Ev::Brk => false, Ev::W(n) => forced(e), Ev::Fb => true }) {
    assert((seq![a] + e).drop_first() =~= e);
}
proof fn l_head(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>) ensures (a + b) + c == a + (b + c),
    a.len() == 0 ==> a + b == b && a + (b + c) == b + c,
    a.len() == 1 ==> width(a + (b + c)) == (match a[0] { Ev::Brk => 0, Ev::W(n) => n + width(b + c), Ev::Fb => width(b + c) }),
    a.len() == 1 ==> forced(a + b) == (match a[0] { Ev::Brk => false, Ev::W(n) => forced(b), Ev::Fb => true }),
{
    assert((a + b) + c =~= a + (b + c));
    if a.len() == 0 { assert(a + b =~= b); assert(a + (b + c) =~= b + c); }
    if a.len() == 1 { assert(a =~= seq![a[0]]); l_width(a[0], b + c); l_width(a[0], b); }
}
/// pushing the elements of v in reverse order puts them in front of the stack in their own order
proof fn l_push<'a>(st: Seq<Chunk<'a>>, v: Seq<DocRef<'a>>, n: nat, ind: nat, flat: bool) requires n <= v.len()
    ensures la_stack(st + tail(v, n, ind, flat)) == las(v, n, flat) + la_stack(st),
        dsz_stack(st + tail(v, n, ind, flat)) == dszs(v, n) + dsz_stack(st),
        wgt_stack(st + tail(v, n, ind, flat)) == wgts(v, n) + wgt_stack(st),
    decreases n
{
    if n == 0 { assert(st + tail(v, n, ind, flat) =~= st); assert(seq![] + la_stack(st) =~= la_stack(st)); } else {
        let m = (n - 1) as nat;
        l_push(st, v, m, ind, flat);
        assert((st + tail(v, n, ind, flat)).drop_last() =~= st + tail(v, m, ind, flat));
        assert((st + tail(v, n, ind, flat)).last() == mk(v[v.len() - n], ind, flat));
        assert(la(v[v.len() - n], flat) + (las(v, m, flat) + la_stack(st)) =~= (la(v[v.len() - n], flat) + las(v, m, flat)) + la_stack(st));
    }
}
proof fn l_lays<'a>(st: Seq<Chunk<'a>>, v: Seq<DocRef<'a>>, n: nat, ind: nat, flat: bool, mw: nat, s: St) requires n <= v.len(), ind <= u32::MAX
    ensures lay_stack(st + tail(v, n, ind, flat), mw, s) == lay_stack(st, mw, lays(v, n, ind, flat, st, mw, s))
    decreases n
{
    if n == 0 { assert(st + tail(v, n, ind, flat) =~= st); } else {
        let m = (n - 1) as nat;
        assert((st + tail(v, n, ind, flat)).drop_last() =~= st + tail(v, m, ind, flat));
        assert((st + tail(v, n, ind, flat)).last() == mk(v[v.len() - n], ind, flat));
        l_lays(st, v, m, ind, flat, mw, lay(v[v.len() - n], ind, flat, st + tail(v, m, ind, flat), mw, s));
    }
}
proof fn l_elems(v: Seq<DocRef>, n: nat) requires n <= v.len() ensures
    wfs(v, n) ==> forall|i: int| v.len() - n <= i < v.len() ==> wf(#[trigger] v[i]),
    forall|i: int| v.len() - n <= i < v.len() ==> wgt(#[trigger] v[i]) <= wgts(v, n)
    decreases n
{
    if n > 0 { l_elems(v, (n - 1) as nat); }
}
proof fn l_pushed<'a>(st: Seq<Chunk<'a>>, v: Vec<DocRef<'a>>, c: Chunk<'a>, w: nat)
    requires ok_stack(st, w), wfs(v@, v@.len()), c.indent + wgts(v@, v@.len()) <= w, 
    ensures ok_stack(st + tail(v@, v@.len(), c.indent as nat, c.flat), w)
{
    l_elems(v@, v@.len());
    let x = st + tail(v@, v@.len(), c.indent as nat, c.flat);
    assert forall|i: int| 0 <= i < x.len() implies wf((#[trigger] x[i]).doc_ref) && x[i].indent + wgt(x[i].doc_ref) <= w by {
        if i >= st.len() { assert(x[i] == mk(v@[v@.len() - 1 - (i - st.len())], c.indent as nat, c.flat)); }
    };
}
proof fn l_stack_push<'a>(st: Seq<Chunk<'a>>, c: Chunk<'a>) ensures
    la_stack(st.push(c)) == la(c.doc_ref, c.flat) + la_stack(st), dsz_stack(st.push(c)) == dsz(c.doc_ref) + dsz_stack(st), wgt_stack(st.push(c)) == wgt(c.doc_ref) + wgt_stack(st),
{ assert(st.push(c).drop_last() =~= st); }
proof fn l_lay_push<'a>(st: Seq<Chunk<'a>>, c: Chunk<'a>, mw: nat, s: St) ensures
    lay_stack(st.push(c), mw, s) == lay_stack(st, mw, lay(c.doc_ref, c.indent as nat, c.flat, st, mw, s)),
{ assert(st.push(c).drop_last() =~= st); }

