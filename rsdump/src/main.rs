//! Prints the abstract syntax of every .rs file given on the command line as one JSON object
//! {file: [item, ...]}.  Nothing is dropped: an item or expression this program does not know is
//! printed as {"k":"Unknown", ...} and the verifier refuses it.
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Map, Value};
use syn::{punctuated::Punctuated, spanned::Spanned, *};

fn ts<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn ln<T: Spanned>(t: &T) -> usize { t.span().start().line }
fn cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && ts(&a.meta).replace(' ', "").contains("cfg(test)"))
}
fn attrs(a: &[Attribute]) -> Value {
    json!(a.iter().filter(|a| !a.path().is_ident("doc")).map(|a| ts(&a.meta)).collect::<Vec<_>>())
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            if let Some(s) = p.path.segments.last() {
                let mut args = vec![];
                match &s.arguments {
                    PathArguments::AngleBracketed(a) => for g in &a.args { if let GenericArgument::Type(t) = g { args.push(ty(t)); } },
                    PathArguments::Parenthesized(a) => for t in &a.inputs { args.push(ty(t)); },
                    _ => {}
                }
                json!({"n": s.ident.to_string(), "a": args, "q": p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>()})
            } else { json!({"n": ts(t), "a": []}) }
        }
        Type::Reference(r) => json!({"n": if r.mutability.is_some() {"&mut"} else {"&"}, "a": [ty(&r.elem)]}),
        Type::Slice(s) => json!({"n": "[]", "a": [ty(&s.elem)]}),
        Type::Array(s) => json!({"n": "[]", "a": [ty(&s.elem)]}),
        Type::Tuple(t) => json!({"n": "()", "a": t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Never(_) => json!({"n": "!", "a": []}),
        Type::ImplTrait(i) => json!({"n": "impl", "a": [], "b": ts(i)}),
        Type::Infer(_) => json!({"n": "_", "a": []}),
        Type::Paren(p) => ty(&p.elem),
        _ => json!({"n": ts(t), "a": []}),
    }
}
fn path(p: &Path) -> Vec<String> { p.segments.iter().map(|s| s.ident.to_string()).collect() }
fn path_tys(p: &Path) -> Value {
    let mut v = vec![];
    for s in &p.segments {
        if let PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { if let GenericArgument::Type(t) = g { v.push(ty(t)); } } }
    }
    json!(v)
}
fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"Ident","n":i.ident.to_string(),"ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),
                                "sub": i.subpat.as_ref().map(|(_, p)| pat(p))}),
        Pat::Wild(_) => json!({"k":"Wild"}),
        Pat::Rest(_) => json!({"k":"Rest"}),
        Pat::Lit(l) => json!({"k":"Lit","e":lit(&l.lit)}),
        Pat::Or(o) => json!({"k":"Or","p":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Tuple(t) => json!({"k":"Tuple","p":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"TupleStruct","path":path(&t.path),"p":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"Struct","path":path(&s.path),"rest":s.rest.is_some(),
              "f":s.fields.iter().map(|f| json!([ts(&f.member), pat(&f.pat)])).collect::<Vec<_>>()}),
        Pat::Path(p) => json!({"k":"Path","path":path(&p.path)}),
        Pat::Reference(r) => json!({"k":"Ref","p":pat(&r.pat)}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Type(t) => json!({"k":"Type","p":pat(&t.pat),"ty":ty(&t.ty)}),
        Pat::Slice(s) => json!({"k":"Slice","p":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Range(_) => json!({"k":"Range","src":ts(p)}),
        _ => json!({"k":"Unknown","src":ts(p),"ln":ln(p)}),
    }
}
fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"Str","v":s.value()}),
        Lit::Char(c) => json!({"k":"Char","v":c.value().to_string()}),
        Lit::Int(i) => json!({"k":"Int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Bool(b) => json!({"k":"Bool","v":b.value}),
        Lit::Byte(b) => json!({"k":"Int","v":b.value().to_string(),"suf":"u8"}),
        _ => json!({"k":"Unknown","src":ts(l),"ln":ln(l)}),
    }
}
fn block(b: &Block) -> Value {
    let mut v = vec![];
    for s in &b.stmts {
        v.push(match s {
            Stmt::Local(l) => {
                let (e, d) = match &l.init { Some(i) => (expr(&i.expr), i.diverge.as_ref().map(|(_, e)| expr(e))), None => (Value::Null, None) };
                json!({"k":"Let","p":pat(&l.pat),"e":e,"else":d,"ln":ln(l)})
            }
            Stmt::Item(i) => json!({"k":"Item","i":item(i)}),
            Stmt::Expr(e, semi) => json!({"k":"Expr","e":expr(e),"semi":semi.is_some()}),
            Stmt::Macro(m) => json!({"k":"Expr","e":mac(&m.mac),"semi":m.semi_token.is_some()}),
        });
    }
    json!(v)
}
fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let l = ln(m);
    if name == "matches" {
        let r = m.parse_body_with(|input: parse::ParseStream| {
            let e: Expr = input.parse()?;
            input.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(input)?;
            let g: Option<Expr> = if input.peek(Token![if]) { input.parse::<Token![if]>()?; Some(input.parse()?) } else { None };
            let _ = input.parse::<Option<Token![,]>>()?;
            Ok((e, p, g))
        });
        if let Ok((e, p, g)) = r {
            return json!({"k":"Matches","e":expr(&e),"p":pat(&p),"g":g.as_ref().map(expr),"ln":l});
        }
    }
    if name == "vec" {
        if let Ok((e, n)) = m.parse_body_with(|input: parse::ParseStream| { let e: Expr = input.parse()?; input.parse::<Token![;]>()?; let n: Expr = input.parse()?; Ok((e, n)) }) {
            return json!({"k":"VecRepeat","e":expr(&e),"n":expr(&n),"ln":l});
        }
    }
    match m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
        Ok(a) => json!({"k":"Macro","n":name,"args":a.iter().map(expr).collect::<Vec<_>>(),"ln":l}),
        Err(_) => json!({"k":"Macro","n":name,"src":m.tokens.to_string(),"ln":l}),
    }
}
fn expr(e: &Expr) -> Value {
    let l = ln(e);
    match e {
        Expr::Lit(x) => lit(&x.lit),
        Expr::Path(p) => json!({"k":"Path","path":path(&p.path),"tys":path_tys(&p.path),"self":p.qself.as_ref().map(|q| ty(&q.ty)),"ln":l}),
        Expr::MethodCall(m) => json!({"k":"MCall","r":expr(&m.receiver),"m":m.method.to_string(),
            "tf":m.turbofish.as_ref().map(|t| t.args.iter().filter_map(|g| if let GenericArgument::Type(t) = g {Some(ty(t))} else {None}).collect::<Vec<_>>()),
            "args":m.args.iter().map(expr).collect::<Vec<_>>(),"ln":m.method.span().start().line}),
        Expr::Call(c) => json!({"k":"Call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>(),"ln":l}),
        Expr::Field(f) => json!({"k":"Field","e":expr(&f.base),"f":ts(&f.member),"ln":l}),
        Expr::Index(i) => json!({"k":"Index","e":expr(&i.expr),"i":expr(&i.index),"ln":l}),
        Expr::Reference(r) => json!({"k":"Ref","e":expr(&r.expr),"mut":r.mutability.is_some(),"ln":l}),
        Expr::Unary(u) => json!({"k":"Unary","op":ts(&u.op),"e":expr(&u.expr),"ln":l}),
        Expr::Binary(b) => json!({"k":"Binary","op":ts(&b.op),"l":expr(&b.left),"r":expr(&b.right),"ln":l}),
        Expr::Assign(a) => json!({"k":"Assign","l":expr(&a.left),"r":expr(&a.right),"ln":l}),
        Expr::If(i) => json!({"k":"If","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|(_, e)| expr(e)),"ln":l}),
        Expr::Let(x) => json!({"k":"LetCond","p":pat(&x.pat),"e":expr(&x.expr),"ln":l}),
        Expr::Match(m) => json!({"k":"Match","e":expr(&m.expr),"arms":m.arms.iter().map(|a|
            json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|(_, g)| expr(g)),"b":expr(&a.body),"ln":ln(&a.pat)})).collect::<Vec<_>>(),"ln":l}),
        Expr::Block(b) => json!({"k":"Block","b":block(&b.block),"label":b.label.as_ref().map(|l| l.name.ident.to_string()),"ln":l}),
        Expr::Closure(c) => json!({"k":"Closure","p":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body),"move":c.capture.is_some(),"ln":l}),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Return(r) => json!({"k":"Return","e":r.expr.as_ref().map(|e| expr(e)),"ln":l}),
        Expr::Break(r) => json!({"k":"Break","e":r.expr.as_ref().map(|e| expr(e)),"label":r.label.as_ref().map(|l| l.ident.to_string()),"ln":l}),
        Expr::Continue(r) => json!({"k":"Continue","label":r.label.as_ref().map(|l| l.ident.to_string()),"ln":l}),
        Expr::ForLoop(f) => json!({"k":"For","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"label":f.label.as_ref().map(|l| l.name.ident.to_string()),"ln":l}),
        Expr::While(w) => json!({"k":"While","c":expr(&w.cond),"b":block(&w.body),"label":w.label.as_ref().map(|l| l.name.ident.to_string()),"ln":l}),
        Expr::Loop(w) => json!({"k":"Loop","b":block(&w.body),"label":w.label.as_ref().map(|l| l.name.ident.to_string()),"ln":l}),
        Expr::Struct(s) => json!({"k":"Struct","path":path(&s.path),"f":s.fields.iter().map(|f| json!([ts(&f.member), expr(&f.expr)])).collect::<Vec<_>>(),
            "rest":s.rest.as_ref().map(|e| expr(e)),"ln":l}),
        Expr::Tuple(t) => json!({"k":"Tuple","e":t.elems.iter().map(expr).collect::<Vec<_>>(),"ln":l}),
        Expr::Array(t) => json!({"k":"Array","e":t.elems.iter().map(expr).collect::<Vec<_>>(),"ln":l}),
        Expr::Repeat(r) => json!({"k":"VecRepeat","e":expr(&r.expr),"n":expr(&r.len),"ln":l}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Try(t) => json!({"k":"Try","e":expr(&t.expr),"ln":l}),
        Expr::Cast(c) => json!({"k":"Cast","e":expr(&c.expr),"ty":ty(&c.ty),"ln":l}),
        Expr::Range(r) => json!({"k":"Range","s":r.start.as_ref().map(|e| expr(e)),"e":r.end.as_ref().map(|e| expr(e)),"inc":matches!(r.limits, RangeLimits::Closed(_)),"ln":l}),
        Expr::Const(c) => json!({"k":"Block","b":block(&c.block),"ln":l}),
        _ => json!({"k":"Unknown","src":ts(e),"ln":l}),
    }
}
fn sig(s: &Signature) -> Map<String, Value> {
    let mut m = Map::new();
    m.insert("n".into(), json!(s.ident.to_string()));
    let mut ps = vec![];
    let mut recv = Value::Null;
    for i in &s.inputs {
        match i {
            FnArg::Receiver(r) => recv = json!(ts(r)),
            FnArg::Typed(t) => ps.push(json!({"p":pat(&t.pat),"ty":ty(&t.ty)})),
        }
    }
    m.insert("self".into(), recv);
    m.insert("params".into(), json!(ps));
    m.insert("gen".into(), json!(s.generics.params.iter().filter_map(|g| if let GenericParam::Type(t) = g {Some(t.ident.to_string())} else {None}).collect::<Vec<_>>()));
    m.insert("ret".into(), match &s.output { ReturnType::Default => Value::Null, ReturnType::Type(_, t) => ty(t) });
    m.insert("unsafe".into(), json!(s.unsafety.is_some()));
    m
}
fn func(s: &Signature, b: Option<&Block>, a: &[Attribute], l: usize, le: usize) -> Value {
    let mut m = sig(s);
    m.insert("k".into(), json!("Fn"));
    m.insert("body".into(), b.map(block).unwrap_or(Value::Null));
    m.insert("attrs".into(), attrs(a));
    m.insert("ln".into(), json!(l));
    m.insert("le".into(), json!(le));
    Value::Object(m)
}
fn fields(f: &Fields) -> Value {
    match f {
        Fields::Named(n) => json!({"k":"Named","f":n.named.iter().map(|f| json!({"n":f.ident.as_ref().unwrap().to_string(),"ty":ty(&f.ty),"attrs":attrs(&f.attrs)})).collect::<Vec<_>>()}),
        Fields::Unnamed(n) => json!({"k":"Unnamed","f":n.unnamed.iter().enumerate().map(|(i, f)| json!({"n":i.to_string(),"ty":ty(&f.ty)})).collect::<Vec<_>>()}),
        Fields::Unit => json!({"k":"Unit","f":[]}),
    }
}
fn item(i: &Item) -> Value {
    let l = ln(i);
    let le = i.span().end().line;
    match i {
        Item::Fn(f) => func(&f.sig, Some(&f.block), &f.attrs, l, le),
        Item::Struct(s) => json!({"k":"StructDef","n":s.ident.to_string(),"fields":fields(&s.fields),"attrs":attrs(&s.attrs),"ln":l,
            "gen":s.generics.params.iter().filter_map(|g| if let GenericParam::Type(t) = g {Some(t.ident.to_string())} else {None}).collect::<Vec<_>>()}),
        Item::Enum(s) => json!({"k":"EnumDef","n":s.ident.to_string(),"attrs":attrs(&s.attrs),"ln":l,
            "v":s.variants.iter().map(|v| json!({"n":v.ident.to_string(),"fields":fields(&v.fields)})).collect::<Vec<_>>()}),
        Item::Impl(im) => json!({"k":"Impl","trait":im.trait_.as_ref().map(|(_, p, _)| path(p)),"ty":ty(&im.self_ty),"ln":l,
            "items":im.items.iter().filter_map(|x| match x {
                ImplItem::Fn(f) if !cfg_test(&f.attrs) => Some(func(&f.sig, Some(&f.block), &f.attrs, ln(f), f.span().end().line)),
                ImplItem::Const(c) => Some(json!({"k":"Const","n":c.ident.to_string(),"e":expr(&c.expr)})),
                ImplItem::Type(t) => Some(json!({"k":"TypeAlias","n":t.ident.to_string(),"ty":ty(&t.ty)})),
                ImplItem::Fn(_) => None,
                x => Some(json!({"k":"Unknown","src":ts(x)})),
            }).collect::<Vec<_>>()}),
        Item::Trait(t) => json!({"k":"Trait","n":t.ident.to_string(),"ln":l,
            "items":t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => func(&f.sig, f.default.as_ref(), &f.attrs, ln(f), f.span().end().line),
                x => json!({"k":"Unknown","src":ts(x)}),
            }).collect::<Vec<_>>()}),
        Item::Const(c) => json!({"k":"Const","n":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr),"ln":l}),
        Item::Static(c) => json!({"k":"Static","n":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr),"ln":l}),
        Item::Type(t) => json!({"k":"TypeAlias","n":t.ident.to_string(),"ty":ty(&t.ty),"ln":l}),
        Item::Use(u) => json!({"k":"Use","src":ts(u),"ln":l}),
        Item::Mod(m) => json!({"k":"Mod","n":m.ident.to_string(),"ln":l,"items":m.content.as_ref().map(|(_, v)| v.iter().filter(|i| keep(i)).map(item).collect::<Vec<_>>())}),
        Item::Macro(m) => json!({"k":"ItemMacro","n":m.mac.path.segments.last().map(|s| s.ident.to_string()),"src":m.mac.tokens.to_string(),"ln":l}),
        _ => json!({"k":"Unknown","src":ts(i),"ln":l}),
    }
}
fn keep(i: &Item) -> bool {
    let a = match i { Item::Fn(f) => &f.attrs, Item::Mod(m) => &m.attrs, Item::Struct(m) => &m.attrs, Item::Enum(m) => &m.attrs,
        Item::Impl(m) => &m.attrs, Item::Const(m) => &m.attrs, Item::Use(m) => &m.attrs, Item::Static(m) => &m.attrs, _ => return true };
    !cfg_test(a) && !a.iter().any(|a| ts(&a.meta).replace(' ', "") == "cfg(target_arch=\"wasm32\")")
}
fn main() {
    let mut out = Map::new();
    for f in std::env::args().skip(1) {
        let s = std::fs::read_to_string(&f).expect("read");
        let ast = match syn::parse_file(&s) { Ok(a) => a, Err(e) => { eprintln!("{}: {}", f, e); std::process::exit(2) } };
        let name = std::path::Path::new(&f).file_name().unwrap().to_string_lossy().to_string();
        out.insert(name, json!(ast.items.iter().filter(|i| keep(i)).map(item).collect::<Vec<_>>()));
    }
    println!("{}", Value::Object(out));
}
