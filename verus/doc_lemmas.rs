// ------------------------------------------------------------------ what the layout keeps (lemmas over the contract of pretty_print)
/// the leaves of a document in the order in which they are printed
enum Sk { T(Seq<char>), Sp, Nl(nat), Nl0, Soft(nat), Maybe(nat), Fl }
/// every choice is a group: the same document, flat or not (contract of DocBuilder::group, the only caller of choice)
spec fn groups(d: &Doc) -> bool decreases d {
    match d {
        Doc::Flat(x) => groups(*x),
        Doc::Indent(i, x) => groups(*x),
        Doc::Dedent(i, x) => groups(*x),
        Doc::Concat(v) => groupss(v@, v@.len()),
        Doc::Choice(x, y) => **x == Doc::Flat(*y) && groups(*y),
        _ => true,
    }
}
spec fn groupss(v: Seq<DocRef>, n: nat) -> bool decreases v, n { n == 0 || n > v.len() || groups(v[v.len() - n]) && groupss(v, (n - 1) as nat) }
spec fn less(ind: nat, i: u32) -> nat { if ind < i { 0 } else { (ind - i) as nat } }
spec fn sk(d: &Doc, ind: nat) -> Seq<Sk> decreases d {
    match d {
        Doc::Newline => seq![Sk::Nl(ind)],
        Doc::NewlineWithNoIndent => seq![Sk::Nl0],
        Doc::ForceBreak => seq![],
        Doc::Text(t, w) => if t@ == " "@ { seq![Sk::Fl, Sk::Sp] } else { seq![Sk::T(t@)] },
        Doc::Softline => seq![Sk::Soft(ind)],
        Doc::Maybeline => seq![Sk::Maybe(ind)],
        Doc::Flat(x) => sk(*x, ind),
        Doc::Indent(i, x) => sk(*x, ind + *i as nat),
        Doc::Dedent(i, x) => sk(*x, less(ind, *i)),
        Doc::Concat(v) => sks(v@, v@.len(), ind),
        Doc::Choice(x, y) => seq![Sk::Fl] + sk(*y, ind),
    }
}
spec fn sks(v: Seq<DocRef>, n: nat, ind: nat) -> Seq<Sk> decreases v, n { if n == 0 || n > v.len() { seq![] } else { sk(v[v.len() - n], ind) + sks(v, (n - 1) as nat, ind) } }

spec fn white(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) == ' ' || w[i] == '\n' }
/// number of line breaks
spec fn breaks(w: Seq<char>) -> nat decreases w.len() { if w.len() == 0 { 0 } else { breaks(w.drop_last()) + if w.last() == '\n' { 1nat } else { 0 } } }
spec fn is_t(x: Sk) -> bool { x is T }
/// number of separators behind the last text
spec fn trail(k: Seq<Sk>) -> nat decreases k.len() { if k.len() == 0 || is_t(k.last()) { 0 } else { 1 + trail(k.drop_last()) } }
spec fn tr(k: Seq<Sk>) -> Seq<Sk> decreases k.len() { if k.len() == 0 || is_t(k.last()) { seq![] } else { tr(k.drop_last()).push(k.last()) } }
spec fn core(k: Seq<Sk>) -> Seq<Sk> decreases k.len() { if k.len() == 0 || is_t(k.last()) { k } else { core(k.drop_last()) } }
/// a separator that always shows
spec fn must(t: Seq<Sk>) -> bool decreases t.len() { t.len() > 0 && (must(t.drop_last()) || !(t.last() is Maybe) && !(t.last() is Fl)) }
spec fn nofl(t: Seq<Sk>) -> bool decreases t.len() { t.len() == 0 || !(t.last() is Fl) && nofl(t.drop_last()) }
spec fn nl0s(t: Seq<Sk>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { nl0s(t.drop_last()) + if t.last() is Nl0 { 1nat } else { 0 } } }
/// without the Fl at the end
spec fn unfl(t: Seq<Sk>) -> Seq<Sk> decreases t.len() { if t.len() > 0 && t.last() is Fl { unfl(t.drop_last()) } else { t } }
/// the white space w stands for the separators t, behind the text c
spec fn sep(c: Seq<char>, w: Seq<char>, t: Seq<Sk>) -> bool {
    white(w)
    && (t.len() == 0 ==> w.len() == 0)                                        // no white space without a separator
    && (must(t) ==> w.len() > 0 || c.len() > 0 && c.last() == ' ')            // a separator shows
    && (unfl(t).len() > 0 && unfl(t).last() is Nl ==> exists|p: Seq<char>| w == #[trigger] p.push('\n') + spaces(unfl(t).last()->Nl_0))   // P09: the line begins with its indentation
    && (unfl(t).len() > 0 && unfl(t).last() is Nl && nofl(unfl(t)) ==> breaks(w) == 1 + nl0s(unfl(t)))                    // P10: blank lines
}
/// o is the texts of k in their order, each character for character, with white space exactly where k has separators
spec fn prints(o: Seq<char>, k: Seq<Sk>) -> bool { exists|c: Seq<char>, w: Seq<char>| o == #[trigger] (c + w) && printc(c, core(k)) && sep(c, w, tr(k)) }
/// the same for a sequence that ends with a text (or is empty)
spec fn printc(c: Seq<char>, k: Seq<Sk>) -> bool decreases k.len() via printc_dec {
    if k.len() == 0 { c.len() == 0 } else {
        k.last() is T && exists|b: Seq<char>, w: Seq<char>| c == #[trigger] (b + w) + k.last()->T_0 && printc(b, core(k.drop_last())) && sep(b, w, tr(k.drop_last()))
    }
}
#[via_fn]
proof fn printc_dec(c: Seq<char>, k: Seq<Sk>) { l_core(k.drop_last()); }
proof fn l_core(k: Seq<Sk>) ensures core(k).len() <= k.len() decreases k.len() { if !(k.len() == 0 || is_t(k.last())) { l_core(k.drop_last()); } }

spec fn pw(p: Option<nat>) -> Seq<char> { match p { Some(i) => seq!['\n'] + spaces(i), None => seq![] } }
/// the state behind the leaves k
spec fn okw(c: Seq<char>, w: Seq<char>, p: Option<nat>, k: Seq<Sk>) -> bool {
    printc(c, core(k)) && sep(c, w + pw(p), tr(k)) && (nofl(tr(k)) ==> breaks(w) == nl0s(tr(k))) && (tr(k).len() == 0 ==> p is None)
}
spec fn ok(s: St, k: Seq<Sk>) -> bool { exists|c: Seq<char>, w: Seq<char>| s.out == #[trigger] (c + w) && okw(c, w, s.pend, k) }

proof fn l_breaks(a: Seq<char>, b: Seq<char>) ensures breaks(a + b) == breaks(a) + breaks(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); l_breaks(a, b.drop_last()); }
}
proof fn l_spaces(n: nat) ensures breaks(spaces(n)) == 0 decreases n
{
    if n > 0 { assert(spaces(n).drop_last() =~= spaces((n - 1) as nat)); l_spaces((n - 1) as nat); }
}
proof fn l_pw(w: Seq<char>, i: nat) ensures w + pw(Some(i)) == w.push('\n') + spaces(i), breaks(w + pw(Some(i))) == breaks(w) + 1, white(w) ==> white(w + pw(Some(i)))
{
    assert(w + pw(Some(i)) =~= w.push('\n') + spaces(i));
    l_breaks(w, pw(Some(i))); l_breaks(seq!['\n'], spaces(i)); l_spaces(i);
    assert(seq!['\n'].drop_last() =~= seq![]); reveal_with_fuel(breaks, 2);
}
proof fn l_pushed_k(k: Seq<Sk>, x: Sk) ensures !is_t(x) ==> core(k.push(x)) == core(k) && tr(k.push(x)) == tr(k).push(x), is_t(x) ==> core(k.push(x)) == k.push(x) && tr(k.push(x)) == Seq::<Sk>::empty(),
    must(tr(k).push(x)) == (must(tr(k)) || !(x is Maybe) && !(x is Fl)), nofl(tr(k).push(x)) == (nofl(tr(k)) && !(x is Fl)),
    nl0s(tr(k).push(x)) == nl0s(tr(k)) + if x is Nl0 { 1nat } else { 0 }, unfl(tr(k).push(x)) == if x is Fl { unfl(tr(k)) } else { tr(k).push(x) },
{
    assert(k.push(x).drop_last() =~= k);
    assert(tr(k).push(x).drop_last() =~= tr(k));
}
proof fn s_flush(s: St, k: Seq<Sk>) requires ok(s, k) ensures ok(flush(s), k.push(Sk::Fl))
{
    let (c, w) = choose|c: Seq<char>, w: Seq<char>| s.out == #[trigger] (c + w) && okw(c, w, s.pend, k);
    l_pushed_k(k, Sk::Fl);
    let w2 = w + pw(s.pend);
    if let Some(i) = s.pend { l_pw(w, i); assert(flush(s).out =~= c + w2); } else { assert(w2 =~= w); }
    assert(w2 + pw(None) =~= w2);
    assert(flush(s).out =~= c + w2);
    assert(okw(c, w2, None, k.push(Sk::Fl)));
}
proof fn s_text(s: St, k: Seq<Sk>, t: Seq<char>) requires ok(s, k) ensures ok(St { out: flush(s).out + t, pend: None }, k.push(Sk::T(t)))
{
    let (c, w) = choose|c: Seq<char>, w: Seq<char>| s.out == #[trigger] (c + w) && okw(c, w, s.pend, k);
    let w2 = w + pw(s.pend);
    if let Some(i) = s.pend { l_pw(w, i); } else { assert(w2 =~= w); }
    assert(flush(s).out =~= c + w2);
    l_pushed_k(k, Sk::T(t));
    let k2 = k.push(Sk::T(t));
    assert(k2.drop_last() =~= k);
    let c2 = flush(s).out + t;
    assert(c2 == (c + w2) + t);
    assert(printc(c2, k2));
    let e = Seq::<char>::empty();
    assert(c2 + e =~= c2);
    assert(e + pw(None) =~= e);
    assert(okw(c2, e, None, k2));
}
/// a separator x that leaves the output extended by v and the pending line break p
proof fn s_sep(s: St, k: Seq<Sk>, v: Seq<char>, p: Option<nat>, x: Sk)
    requires ok(s, k), !is_t(x), !(x is Fl), white(v), v.len() <= 1,
        x is Nl ==> p == Some(x->Nl_0) && v.len() == 0, x is Nl0 ==> v == seq!['\n'], !(x is Nl0) ==> breaks(v) == 0,
        must(seq![x]) ==> v.len() > 0 || p is Some,
        s.pend is Some && !(x is Nl0) ==> p is Some,
    ensures ok(St { out: s.out + v, pend: p }, k.push(x))
{
    let (c, w) = choose|c: Seq<char>, w: Seq<char>| s.out == #[trigger] (c + w) && okw(c, w, s.pend, k);
    l_pushed_k(k, x);
    let w2 = w + v;
    assert(s.out + v =~= c + w2);
    l_breaks(w, v);
    assert(white(w)) by { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) == ' ' || w[i] == '\n' by { assert((w + pw(s.pend))[i] == w[i]); } };
    assert(white(w2));
    if let Some(i) = p { l_pw(w2, i); } else { assert(w2 + pw(p) =~= w2); }
    if x is Nl0 { assert(seq!['\n'].drop_last() =~= seq![]); reveal_with_fuel(breaks, 2); }
    assert(seq![x].drop_last() =~= seq![]); reveal_with_fuel(must, 2);
    let w3 = w2 + pw(p);
    assert(must(tr(k).push(x)) ==> w3.len() > 0 || c.len() > 0 && c.last() == ' ') by {
        if must(tr(k)) && w3.len() == 0 { assert(w.len() == 0); assert(w + pw(s.pend) =~= w); }
    };
    if x is Nl { assert(w2 =~= w); assert(w3 == w.push('\n') + spaces(x->Nl_0)); }
    assert(okw(c, w2, p, k.push(x)));
}
proof fn s_blank(s: St, k: Seq<Sk>) requires ok(s, k)
    ensures ok(if flush(s).out.len() > 0 && flush(s).out.last() == ' ' { flush(s) } else { St { out: flush(s).out + " "@, pend: None } }, k.push(Sk::Fl).push(Sk::Sp))
{
    reveal_strlit(" ");
    assert(" "@ =~= seq![' ']);
    s_flush(s, k);
    let f = flush(s);
    let k1 = k.push(Sk::Fl);
    assert(seq![' '].drop_last() =~= seq![]); reveal_with_fuel(breaks, 2);
    if f.out.len() > 0 && f.out.last() == ' ' {
        let (c, w) = choose|c: Seq<char>, w: Seq<char>| f.out == #[trigger] (c + w) && okw(c, w, f.pend, k1);
        l_pushed_k(k1, Sk::Sp); l_pushed_k(k, Sk::Fl);
        assert(w + pw(None) =~= w);
        if w.len() == 0 { assert(c + w =~= c); }
        assert(okw(c, w, f.pend, k1.push(Sk::Sp)));
    } else {
        assert(seq![Sk::Sp].drop_last() =~= seq![]); reveal_with_fuel(must, 2);
        s_sep(f, k1, seq![' '], None, Sk::Sp);
    }
}
proof fn l_ok<'a>(d: DocRef<'a>, ind: nat, flat: bool, rest: Seq<Chunk<'a>>, mw: nat, s: St, k: Seq<Sk>)
    requires ok(s, k), groups(d) ensures ok(lay(d, ind, flat, rest, mw, s), k + sk(d, ind)) decreases d, 0nat
{
    let r = lay(d, ind, flat, rest, mw, s);
    let e = Seq::<char>::empty();
    assert(s.out + e =~= s.out);
    match d {
        Doc::Newline => { s_sep(s, k, e, Some(ind), Sk::Nl(ind)); assert(k + sk(d, ind) =~= k.push(Sk::Nl(ind))); },
        Doc::NewlineWithNoIndent => { assert(s.out + seq!['\n'] =~= s.out.push('\n')); s_sep(s, k, seq!['\n'], None, Sk::Nl0); assert(k + sk(d, ind) =~= k.push(Sk::Nl0)); },
        Doc::ForceBreak => { assert(k + sk(d, ind) =~= k); },
        Doc::Text(t, w) => {
            if t@ == " "@ { s_blank(s, k); assert(k + sk(d, ind) =~= k.push(Sk::Fl).push(Sk::Sp)); }
            else { s_text(s, k, t@); assert(k + sk(d, ind) =~= k.push(Sk::T(t@))); }
        },
        Doc::Softline => {
            assert(k + sk(d, ind) =~= k.push(Sk::Soft(ind)));
            assert(seq![' '].drop_last() =~= seq![]); reveal_with_fuel(breaks, 2);
            assert(s.out + seq![' '] =~= s.out.push(' '));
            if flat { s_sep(s, k, seq![' '], s.pend, Sk::Soft(ind)); } else { s_sep(s, k, e, Some(ind), Sk::Soft(ind)); }
        },
        Doc::Maybeline => {
            assert(k + sk(d, ind) =~= k.push(Sk::Maybe(ind)));
            assert(seq![Sk::Maybe(ind)].drop_last() =~= seq![]); reveal_with_fuel(must, 2);
            if flat { s_sep(s, k, e, s.pend, Sk::Maybe(ind)); } else { s_sep(s, k, e, Some(ind), Sk::Maybe(ind)); }
        },
        Doc::Flat(x) => l_ok(*x, ind, true, rest, mw, s, k),
        Doc::Indent(i, x) => l_ok(*x, ind + *i as nat, flat, rest, mw, s, k),
        Doc::Dedent(i, x) => l_ok(*x, less(ind, *i), flat, rest, mw, s, k),
        Doc::Concat(v) => l_oks(v@, v@.len(), ind, flat, rest, mw, s, k),
        Doc::Choice(x, y) => {
            let f = flush(s);
            s_flush(s, k);
            let k1 = k.push(Sk::Fl);
            assert(k + sk(d, ind) =~= k1 + sk(*y, ind));
            l_ok(*y, ind, true, rest, mw, f, k1);
            l_ok(*y, ind, flat, rest, mw, f, k1);
            assert(lay(*x, ind, flat, rest, mw, f) == lay(*y, ind, true, rest, mw, f));
        },
    }
}
proof fn l_oks<'a>(v: Seq<DocRef<'a>>, n: nat, ind: nat, flat: bool, rest: Seq<Chunk<'a>>, mw: nat, s: St, k: Seq<Sk>)
    requires ok(s, k), groupss(v, n) ensures ok(lays(v, n, ind, flat, rest, mw, s), k + sks(v, n, ind)) decreases v, n
{
    if n == 0 || n > v.len() { assert(k + sks(v, n, ind) =~= k); } else {
        let x = v[v.len() - n];
        let r2 = rest + tail(v, (n - 1) as nat, ind, flat);
        l_ok(x, ind, flat, r2, mw, s, k);
        l_oks(v, (n - 1) as nat, ind, flat, rest, mw, lay(x, ind, flat, r2, mw, s), k + sk(x, ind));
        assert((k + sk(x, ind)) + sks(v, (n - 1) as nat, ind) =~= k + sks(v, n, ind));
    }
}
/// the main lemma: whatever max_width is, the printed text consists of the texts of the document
proof fn layout_prints(d: DocRef, mw: nat) requires groups(d) ensures prints(layout(d, mw), sk(d, 0).push(Sk::Fl))
{
    let e = Seq::<char>::empty();
    assert(start().out =~= e + e); assert(e + pw(None) =~= e);
    assert(okw(e, e, None, Seq::<Sk>::empty()));
    assert(ok(start(), Seq::<Sk>::empty()));
    l_ok(d, 0, false, seq![], mw, start(), seq![]);
    assert(Seq::<Sk>::empty() + sk(d, 0) =~= sk(d, 0));
    let s = lay(d, 0, false, seq![], mw, start());
    s_flush(s, sk(d, 0));
    let (c, w) = choose|c: Seq<char>, w: Seq<char>| flush(s).out == #[trigger] (c + w) && okw(c, w, flush(s).pend, sk(d, 0).push(Sk::Fl));
    assert(w + pw(None) =~= w);
}
