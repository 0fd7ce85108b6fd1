// Statements, as lines of text; "@" stands for the number of its line. Each kind may hold another one.
export const KINDS = {
  plain: () => ["at(@);"],
  chosen: (s) => ["if (flag) {", ...s, "} else {", "at(@);", "}"],
  "not chosen": (s) => ["if (!flag) {", ...s, "} else if (flag) {", "at(@);", "}"],
  "else": (s) => ["if (!flag) {", "at(@);", "} else {", ...s, "}"],
  bare: (s) => ["if (!flag)", "free(@);", "else", "free(@);", "for (const x of [1])", "free(x);", ...s],
  loop: (s) => ["for (let i = 0; i < 2; i++) {", ...s, "}"],
  of: (s) => ["for (const x of [1, 2]) {", ...s, "if (x === 1) continue;", "at(@);", "}"],
  labelled: (s) => ["outer: for (;;) {", "for (;;) {", ...s, "break outer;", "}", "}"],
  "while": (s) => ["while (true) {", ...s, "break", "}", "at(@)"],
  "do": (s) => ["do {", ...s, "} while (!flag)", "at(@)"],
  thrown: (s) => ["try {", "at(@);", "throw new Error('x');", "at(@);", "} catch (e) {", ...s, "} finally {", "at(@);", "}"],
  tried: (s) => ["try {", ...s, "} catch {", "at(@);", "}"],
  cases: (s) => ["switch (flag) {", "case false:", "at(@);", "break;", "case true:", ...s, "case 7: {", "at(@);", "}", "break;", "default:", "at(@);", "}"],
  block: (s) => ["{", ...s, "}", ";", "at(@);"],
  "no semicolons": (s) => ["let a = 1", "at(@)", "let b = a", "++b", "at(@)", "out([a, b])", ...s],
  directive: (s) => ["(function () {", "'use strict';", ...s, "return this === undefined ? at(@) : 0;", "})();"],
  arrow: (s) => ["const f = () => {", ...s, "};", "f();"],
  concise: () => ["const f = (x) =>", "at(@) + x;", "const g = () =>", "at(@);", "out(f(1));"],
  "concise object": () => ["const f = (x) => ({", "a: at(@),", "b: { x },", "});", "out(f(1));"],
  "concise list": () => ["const f = () => (free(0), free(1));", "const g = () => (flag) + 1;", "const h = () => (x) => [x, f()];", "out([f(), g(), h()(2)]);", "at(@);"],
  "concise async": () => ["const f = async () => out(flag);", "f();", "const p = async (x) => await x;", "p(1);", "const o = { async *g() { yield 1; } };", "at(@);"],
  curried: (s) => ["const f = (a) => (b) => {", ...s, "return a + b;", "};", "out(f(1)(2));"],
  "function": (s) => ["out(h(3));", "at(@);", "function h(a, b = () => a) {", ...s, "return b();", "}"],
  unused: (s) => ["function h() {", ...s, "}", "const k = function () {", "at(@);", "};", "at(@);"],
  generator: (s) => ["function* g() {", ...s, "const got = yield 1;", "at(@);", "return got;", "}", "out([...g()]);"],
  derived: (s) => ["class A {", "v = (() => 2)();", "static s = 3;", "static {", "free(@);", "const f = () => {", "at(@);", "};", "f();", "}", "}", "class B extends A {", "constructor(x) {", "super();", ...s, "this.x = x;", "}", "get y() {", "at(@);", "return this.x + B.s;", "}", "#z = 1;", "z() { return this.#z; }", "}", "out([new B(1).y, new B(2).v, new B(1).z()]);"],
  object: (s) => ["const o = {", "m() {", ...s, "return this.k;", "},", "k: 1,", "get g() { return 2; },", "set g(v) { out(v); },", "['c' + 1]: () => 5,", "};", "o.g = 3;", "out([o.m(), o.g, o.c1()]);"],
  "long call": () => ["out(", "[", "at(@),", "at(@),", "],", ");"],
  kept: (s) => ["keep(() => {", ...s, "});", "at(@);"],
  "other request": (s) => ["req(2, () => {", ...s, "});", "at(@);"],
  "early return": (s) => ["const f = (x) => {", ...s, "if (x) return out('r');", "at(@);", "return out('s');", "};", "f(true);", "f(false);"],
  template: (s) => ["out(`a${(() => {", ...s, "return 1;", "})()}b`);"],
  "default": (s) => ["const f = ({ a = () => {", ...s, "return 4;", "} } = {}) => out(a());", "f();"],
  "async": (s) => ["(async () => {", ...s, "await null;", "})();", "at(@);"],
  tight: () => ["function f(){return{a:1}}const h=x=>x,e=()=>{},k=function(){at(@)};k();class T{m(){return 1}n(){}static{}}", "out([f(),h(2),e(),new T().m(),new T().n()]);if(flag)at(@);else{}for(;;){break}try{free(1)}catch{}"],
  declared: () => ["var x = 1, y = x;", "let z;", "const [q, ...w] = [1, 2, 3];", "class C {}", "debugger;", "out([x, y, q, w, new C() instanceof C]);", "at(@);"],
};
export const module = (body, more = {}) => {
  const lines = [...(more.first ?? []), "const flag = true;", "let self;", "free(@);", "export function main() {", ...body, "}", "export const other = () => {", "at(@);", "return typeof main;", "};", ...(more.last ?? [])];
  return lines.map((t, i) => t.split("@").join(String(i + 1))).join("\n") + (more.end ?? "\n");
};
// the lines that say when they are run
export const lines = (code) => code.split("\n").map((t, i) => (t.includes("at(" + (i + 1) + ")") ? i + 1 : 0)).filter((n) => n > 0);
