------------------------------- MODULE JsGen -------------------------------
(* Scripts made of fragments.                                                  *)
EXTENDS Chars, Json
CONSTANTS Kind, Size, Sampled
NLs == <<10>>
U(h) == <<92, 117>> \o S(h)
Tokens == <<
  S("a"), S("return "), S("if (a) "), S("x.return "), S("1"), S("1.5e3"), S(".5 "), S("typeof "), S("b in "),
  S("\"s\""), S("'t'"), S("\"it's\""), S("'\"'"), S("'\\''"), S("\"\\\"'\""), S("\"//u\""), S("'/*'"),
  S("\"\\x41\\x0a\\u00e9\""), S("'\\u{1F600}\\u{10FFFF}'"), S("\"\\ud83d\\ude00\\udc00\""), S("'\\n\\t\\r\\b\\f\\v\\\\'"),
  S("\"\\0\""), S("'\\0 1'"), S("\"\\x001\""), S("'\\q\\?'"), S("\"a\\") \o NLs \o S("b\""), S("\"\\u2028\\xa0\\x7f\\u0085\""),
  <<34, 233, 128512, 8232, 160, 8364, 34>>, S("\"\""), S("'import \"/js/a.js\"'"), S("'@@type-hint'"),
  S("`t`"), S("`//"), S("${"), S("`'${a}\"`"), S("`\\`\\${`"), S("`a") \o NLs \o S("`"), S("`${`${1}`}`"), S("`/*`"), S("`"),
  S("`${{a:{}}}//c`"), S("`${f({}, '}')}'`"), S("`${a ? `}` : {b}}//`"), S("`${f({}, `//x`)}`"),
  S("//c") \o NLs, S("// */ '") \o NLs, S("/* c */"), S("/* a") \o NLs \o S("b */"), S("/**/"), S("/***/"), S("/*//*/"), S("// *"), S("///") \o NLs,
  S("/r/g"), S("/[/\"]/"), S("/\\\\/"), S("/\\//i"), S("/[\\]/']/"), S("/[[]'/"), S("/=/"), S("/`/"),
  S("/"), S(" / "), S("/="), S("++"), S("--"), S("+"), S(" - "), S("("), S(")"), S("{"), S("}"), S("["), S("]"),
  S("."), S("..."), S("?."), S(","), S(";"), S("="), S(" => "), S("*"), S("!"), S(": "),
  NLs, S(" "), <<9>>, <<8232>>, <<160>>, <<233>>, S("$a"), S("_import"), S("$from"), S("#p"), U("0061") \o S("b"), S("as"), S("from"), S("obj.import"), S("<!--") >>
Modules == <<S("\"/js/a.js\""), S("'./a.js'"), S("\"../lib/b.js\""), S("\"./sub/../sub/c.js\""), S("'/index.js'"),
             S("\"/js/\\u0061.js\""), S("\"https://x.org/a.js\""), S("\"//x.org/a.js\""), S("\"lib\""), S("\"/js/a.js?v=1\""), S("'./a.js#f'")>>
Imports == Modules \o <<
  S("import "), S("import d from "), S("import * as n from "), S("import {a} from "), S("import{a as b,c}from"),
  S("import d, {a, } from "), S("import d,* as n from "), S("import {") \o NLs \o S(" a, // x") \o NLs \o S(" b as from,") \o NLs \o S("} from "),
  S("import /* c */ {default as as} /* d */ from") \o NLs, S("import from from "), S("import as from "), S("import {from, as as as} from "),
  S("import {\"s t\" as u} from "), S("import {} from "), S("import $d from "), S("import {_a, import as $i, if as x} from "),
  S("export * from "), S("export * as n from "), S("export {a} from "), S("export {default} from "), S("export {a as default, b as \"c d\"}from"), S("export {} from "),
  S("export {a, b};"), S("export {a as b}") \o NLs, S("export default "), S("export const z = "), S("export "), S("export function f() {}"),
  S("import("), S("import.meta.url"), S("await import("), S(")"), S("x.import(1)"), S("{import: 1}"), S("/* import "), S("*/"), S("// import 'a' from ") , S("' import ' +"),
  S("/* not PREPROCESSOR: ignore-import */"), S("// a PREPROCESSOR: ignore-import c") \o NLs \o S("import e from '/js/a.js';"), S("/* x ignore-import */ import {x} from \"/js/a.js\""),
  S("`import "), S("`"), S("${"), S("}"), S(";"), NLs, S(" "), S("a = 1;"), S("/r/"), S(", "), S("from "), S("as "), S("*"), S(" with {type: \"json\"}"), S("'/js/a.js'.x"), S("_import "), S("export_ ") >>
Marks == <<S("// @@type-hint") \o NLs, S("/* @@type-hint */"), S("/*@@type-hint*/"), S("// @@type-hints") \o NLs, S("//@@type-hint x") \o NLs, S("\"// @@type-hint\""), S("/*") \o NLs \o S("@@type-hint*/")>>
Hints == Marks \o Marks \o <<
  NLs, NLs, NLs, NLs \o NLs, S(" "), S("a = 1;"), S("function f(a: B): C;"), S("/* c */"), S("// d") \o NLs, S("/* x") \o NLs \o S("y */"), S("'*/'"), S("\"\\x2a/\""), S("`a") \o NLs \o S("b`"),
  S("{"), S("}"), S("import {x} from '/js/a.js';"), S("export * from './a.js';"), S("import d from \"/index.js\""), S("import T from '/js/none.ts';"), S("*/"), S("/r*/"), <<8232>>, S("// */ @@type-hint") \o NLs, S("*"), S("/ 2") >>
Frags == CASE Kind = "tokens" -> Tokens [] Kind = "imports" -> Imports [] Kind = "hints" -> Hints
VARIABLE seq
Init == seq = <<>>
Pick == IF Sampled THEN {RandomElement(1..(Len(Frags) + 0 * Len(seq)))} ELSE 1..Len(Frags)
Next == Len(seq) < Size /\ \E i \in Pick : seq' = Append(seq, i)
GSpec == Init /\ [][Next]_seq
Emit == (Len(seq) = Size \/ (~Sampled /\ seq # <<>>)) => PrintT(<<"TEXT", ToJson(FoldLeft(LAMBDA a, i : a \o Frags[i], <<>>, seq))>>)
=============================================================================
