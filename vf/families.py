"""Constructs that afmt is able to break over several lines (P08): each snippet's
first line, printed flat, is its longest line and has to be broken one column below."""
STMTS = {
 "call-args": "foo(aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccccc);",
 "new-args": "Foo x = new Foo(aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccccc);",
 "binary": "Integer x = aaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbb + cccccccccccccc;",
 "logical": "if (aaaaaaaaaaaaaaaaaaa && bbbbbbbbbbbbbbbbbbb && ccccccccccccccc) { x(); }",
 "or": "Boolean b = aaaaaaaaaaaaaaaaaaa || bbbbbbbbbbbbbbbbbbb || ccccccccccccccc;",
 "compare": "Boolean b = aaaaaaaaaaaaaaaaaaaaaaaaaaaa == bbbbbbbbbbbbbbbbbbbbbbbbb;",
 "return-binary": "return aaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbb + cccccccccccc;",
 "chain": "foo.aaaaaaaaaaaa().bbbbbbbbbbbbbbb().ccccccccccccccccc().ddddddddd();",
 "list-init": "List<String> l = new List<String>{ aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccc };",
 "set-init": "Set<String> l = new Set<String>{ aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccc };",
 "array-init": "String[] l = new String[]{ aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccc };",
 "map-init": "Map<String, String> l = new Map<String, String>{ aaaaaaaaaaaa => bbbbbbbbbbbb, cccccccccc => ddddd };",
 "soql": "List<Account> l = [SELECT Id, Name, Aaaaaaaaaaaaaa FROM Account WHERE Name = 'x' LIMIT 1];",
 "ternary": "Integer x = aaaaaaaaaaaaaaaaaaaaaaa ? bbbbbbbbbbbbbbbbbbbbbbbb : ccccccccccccccccccccc;",
 "assign-call": "x = foo(aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccccc, dddddddddddddddd);",
 "nested-call": "foo(bar(aaaaaaaaaaaa, bbbbbbbbbbbb), baz(cccccccccccc, ddddddddddddd));",
 "for-cond": "for (Integer i = 0; iiiiiiiiiiiiiiiiiiiii < jjjjjjjjjjjjjjjjjjjjjjjjjj; i++) { x(); }",
 "while-cond": "while (aaaaaaaaaaaaaaaaaaa && bbbbbbbbbbbbbbbbbbb && ccccccccccccccc) { x(); }",
 "throw-args": "throw new AException(aaaaaaaaaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbbbbbbb);",
 "decls": "Integer aaaaaaaaaaaaaaaaaaaaaaaaa = 1, bbbbbbbbbbbbbbbbbbbbbbbbbbbb = 2;",
 "assign-binary": "x = aaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbb * ccccccccccccccc;",
 "nonascii": "foo('\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9', '\u4e2d\u6587\u4e2d\u6587', bbbbbbbbbbbbbbbbbb);",
 "sosl": "List<List<SObject>> l = [FIND 'map*' IN ALL FIELDS RETURNING Account (Id, Name), Contact];",
 "return-call": "return foo(aaaaaaaaaaaaaaaa, bbbbbbbbbbbbbbbbbbbbb, ccccccccccccccccc);",
 "paren-binary": "x = (aaaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbbb) * cccccccccccc;",
}
MEMBERS = {
 "params": "void foo(String aaaaaaaaaaaaaaaaa, String bbbbbbbbbbbbbbbbbb, String ccccccccccc) { x(); }",
 "ctor-params": "A(String aaaaaaaaaaaaaaaaa, String bbbbbbbbbbbbbbbbbb, String ccccccccccc) { x(); }",
 "field-init": "List<String> l = new List<String>{ aaaaaaaaaaaa, bbbbbbbbbbbb, cccccccccc };",
 "field-binary": "String l = aaaaaaaaaaaaaaaaaaaaaaaaaaaaa + bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb;",
 "accessors": "public static Integer aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa { get; set; }",
 "inner-class": "class Baaaaaaaaaaaaaaaaaaaaaaaaa extends Cccccccccccccccccccccc implements D, E { }",
}
TOPS = {
 "class-header": "class Baaaaaaaaaaaaaaaaaaaaaaaaa extends Cccccccccccccccccccccc implements D, E { }",
 "class-implements": "class Baaaaaaaaaaaaaaaaaaaaaaaaa implements Cccccccccccccccccccccc, D, E { }",
 "annotation-args": "@Foo(aaaaaaaaaaaaaaa='xxxxxxxxxxxxxxxxxx' bbbbbbbbbbbbbbbbbb='xxxxxxxxxxxxxxxxxxxx') class A { }",
 "trigger": "trigger T on Account(before insert, after insert, before update, after update) { x(); }",
}
def items():
    out = []
    for k, s in STMTS.items():
        for ind in (1, 2, 4, 7):
            out.append({"id": "family|%s|%d" % (k, ind), "src": "class A {\n void m() {\n%s\n}\n}\n" % s, "mode": "width", "breakable": True, "ind": ind})
    for k, s in MEMBERS.items():
        for ind in (1, 2, 4, 7):
            out.append({"id": "family|%s|%d" % (k, ind), "src": "class A {\n%s\n}\n" % s, "mode": "width", "breakable": True, "ind": ind})
    for k, s in TOPS.items():
        for ind in (1, 2, 4, 7):
            out.append({"id": "family|%s|%d" % (k, ind), "src": s + "\n", "mode": "width", "breakable": True, "ind": ind})
    return out
if __name__ == "__main__":
    import json
    for i in items(): print(json.dumps(i))
