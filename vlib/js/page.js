// Runs the visualization page's own scripts on a small DOM stub.
// argv[2]: directory of the page.  stdin: one JSON case per line {svg: {...}, messages: [...]} ("svg" in the first line only).
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const readline = require("readline");

const root = process.argv[2];
const html = fs.readFileSync(path.join(root, "index.html"), "utf8").replace(/<!--[\s\S]*?-->/g, "");

// Scripts of the page, in order: inline text or the referenced file.
const scripts = [];
const re = /<script\b([^>]*)>([\s\S]*?)<\/script>/gi;
for (let m; (m = re.exec(html)) !== null;) {
  const src = /\bsrc\s*=\s*["']([^"']+)["']/i.exec(m[1]);
  if (src) scripts.push(new vm.Script(fs.readFileSync(path.join(root, src[1]), "utf8"), {filename: src[1]}));
  else scripts.push(new vm.Script(m[2], {filename: "inline"}));
}
const bodyTag = /<body\b([^>]*)>/i.exec(html);
const onload = bodyTag && /\bonload\s*=\s*"([^"]*)"/i.exec(bodyTag[1]);
const pageIds = new Set();
for (const m of html.matchAll(/\bid\s*=\s*["']([^"']+)["']/g)) pageIds.add(m[1]);

let svg = null;

function makeTransform() {
  return {
    angle: 0, cx: 0, cy: 0,
    setRotate(a, x, y) { this.angle = a; this.cx = x; this.cy = y; },
  };
}

class Element {
  constructor(id, attrs) {
    this.id = id;
    this.attrs = Object.assign({}, attrs);
    this.text = null;
    this.style = {setProperty(k, v) { this[k] = v; }, getPropertyValue(k) { return this[k]; }, removeProperty(k) { delete this[k]; }};
    this.transforms = [];
    const t = this.transforms;
    this.transform = {baseVal: {
      appendItem(x) { t.push(x); return x; },
      insertItemBefore(x, i) { t.splice(i, 0, x); return x; },
      initialize(x) { t.length = 0; t.push(x); return x; },
      clear() { t.length = 0; },
      getItem(i) { return t[i]; },
      get numberOfItems() { return t.length; },
      get length() { return t.length; },
    }};
  }
  set innerHTML(x) { this.text = String(x); }
  get innerHTML() { return this.text === null ? "" : this.text; }
  set textContent(x) { this.text = String(x); }
  get textContent() { return this.innerHTML; }
  setAttribute(k, v) { this.attrs[k] = String(v); }
  setAttributeNS(ns, k, v) { this.attrs[k] = String(v); }
  getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
  getAttributeNS(ns, k) { return this.getAttribute(k); }
  hasAttribute(k) { return k in this.attrs; }
  removeAttribute(k) { delete this.attrs[k]; }
  getBBox() {
    // No layout: a box that is different for every element.
    let h = 7;
    for (const c of this.id) h = (h * 31 + c.charCodeAt(0)) % 9973;
    return {x: h % 389, y: h % 211, width: 3 + h % 7, height: 4 + h % 5};
  }
  createSVGTransform() { return makeTransform(); }
}

class Doc {
  constructor(table) { this.table = table; this.cache = new Map(); }
  getElementById(id) {
    if (!Object.prototype.hasOwnProperty.call(this.table, id)) return null;
    if (!this.cache.has(id)) this.cache.set(id, new Element(id, this.table[id]));
    return this.cache.get(id);
  }
  querySelector(s) { return s.startsWith("#") ? this.getElementById(s.slice(1)) : null; }
}

function run(messages) {
  const inner = new Doc(svg);
  const listeners = {};
  const sockets = [];
  const on = (k, f) => { (listeners[k] = listeners[k] || []).push(f); };
  const table = {};
  for (const id of pageIds) table[id] = {};
  const document = new Doc(table);
  for (const id of pageIds) {
    const e = document.getElementById(id);
    e.contentDocument = inner;
    e.getSVGDocument = () => inner;
    e.addEventListener = on;
  }
  document.addEventListener = on;
  class WebSocket {
    constructor(url) { this.url = url; this.handlers = {}; this.readyState = 1; sockets.push(this); }
    addEventListener(k, f) { (this.handlers[k] = this.handlers[k] || []).push(f); }
    send() {}
    close() {}
    fire(kind, event) {
      if (typeof this["on" + kind] === "function") this["on" + kind](event);
      for (const f of this.handlers[kind] || []) f.call(this, event);
    }
  }
  const sandbox = {document, WebSocket, console: {log() {}, warn() {}, error() {}, info() {}, debug() {}}, setTimeout: (f) => f(), clearTimeout() {}};
  sandbox.window = sandbox;
  sandbox.self = sandbox;
  sandbox.addEventListener = on;
  vm.createContext(sandbox);
  for (const s of scripts) s.runInContext(sandbox);
  for (const f of listeners["DOMContentLoaded"] || []) f.call(sandbox, {});
  for (const f of listeners["load"] || []) f.call(sandbox, {});
  if (onload) vm.runInContext(onload[1], sandbox);
  else if (typeof sandbox.onload === "function") sandbox.onload({});
  if (sockets.length !== 1) return {error: "the page opened " + sockets.length + " connections"};
  sockets[0].fire("open", {});
  const shots = [];
  for (const m of messages) {
    sockets[0].fire("message", {data: m});
    const shot = {};
    for (const [id, e] of inner.cache) {
      const style = {};
      for (const k of Object.keys(e.style)) if (typeof e.style[k] !== "function") style[k] = e.style[k];
      shot[id] = {text: e.text, attrs: e.attrs, style, rot: e.transforms.map((t) => [t.angle, t.cx, t.cy]), box: e.getBBox()};
    }
    shots.push(JSON.parse(JSON.stringify(shot)));
  }
  return {url: sockets[0].url, shots};
}

readline.createInterface({input: process.stdin}).on("line", (line) => {
  let out;
  try {
    const c = JSON.parse(line);
    if (c.svg) { svg = c.svg; out = {ok: true}; }
    else out = run(c.messages);
  } catch (e) {
    out = {error: String(e && e.stack || e).slice(0, 600)};
  }
  process.stdout.write(JSON.stringify(out) + "\n");
});
