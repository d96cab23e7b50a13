// A minimal browser for the visualization page: loads the page's scripts into a
// VM with a stub DOM made from the real drawing, delivers WebSocket messages and
// reports what is displayed after each of them.
// stdin: JSON {svg: tree, scripts: [{name, code}], onload, objectId, messages: [str]}
// stdout: JSON {url, initial, snapshots: [{changed: {idx: state}, errors: [...]}]}
import vm from 'node:vm';
import fs from 'node:fs';

const input = JSON.parse(fs.readFileSync(0, 'utf8'));

// --- colours: an invalid value leaves a style property as it was -----------------
const COLOR = /^(none|transparent|currentcolor|inherit|#[0-9a-f]{3}|#[0-9a-f]{6}|#[0-9a-f]{8}|rgba?\([^)]*\)|hsla?\([^)]*\)|[a-z]+)$/i;
const isColor = (v) => COLOR.test(v) && !/^(undefined|null|nan|true|false)$/i.test(v);
const norm = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
const dash = (s) => s.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());

function parseStyle(text) {
  const m = new Map();
  for (const part of (text || '').split(';')) {
    const k = part.indexOf(':');
    if (k > 0) m.set(part.slice(0, k).trim(), part.slice(k + 1).trim());
  }
  return m;
}

function makeStyle(el) {
  const set = (name, v) => {
    v = v === null ? '' : String(v).trim();
    if (v === '') { el._style.delete(name); return; }
    if ((name === 'fill' || name === 'stroke') && !isColor(v)) return;
    if (/^(undefined|NaN)$/.test(v)) return;
    el._style.set(name, v);
  };
  const api = {
    setProperty: (n, v) => set(n, v),
    getPropertyValue: (n) => el._style.get(n) ?? '',
    removeProperty: (n) => { const v = el._style.get(n) ?? ''; el._style.delete(n); return v; },
  };
  return new Proxy(api, {
    get: (t, k) => (k in t ? t[k] : k === 'cssText' ? [...el._style].map(([a, b]) => a + ':' + b).join(';') : typeof k === 'string' ? el._style.get(dash(k)) ?? '' : undefined),
    set: (t, k, v) => { if (k === 'cssText') el._style = parseStyle(v); else set(dash(k), v); return true; },
  });
}

// --- transforms -------------------------------------------------------------------
const mul = (a, b) => ({ a: a.a * b.a + a.c * b.b, b: a.b * b.a + a.d * b.b, c: a.a * b.c + a.c * b.d, d: a.b * b.c + a.d * b.d, e: a.a * b.e + a.c * b.f + a.e, f: a.b * b.e + a.d * b.f + a.f });
const ident = () => ({ a: 1, b: 0, c: 0, d: 1, e: 0, f: 0 });
function rot(deg, x = 0, y = 0) {
  const r = (deg * Math.PI) / 180, c = Math.cos(r), s = Math.sin(r);
  return { a: c, b: s, c: -s, d: c, e: x - c * x + s * y, f: y - s * x - c * y };
}
class SVGTransform {
  constructor(m) { this.matrix = m ?? ident(); this.angle = 0; this.type = 1; }
  setRotate(deg, x, y) {
    for (const v of [deg, x, y]) if (!Number.isFinite(Number(v))) throw new TypeError('setRotate: The provided float value is non-finite.');
    this.matrix = rot(Number(deg), Number(x), Number(y)); this.angle = Number(deg); this.type = 4;
  }
  setTranslate(x, y) { this.matrix = { ...ident(), e: x, f: y }; this.type = 2; }
  setScale(x, y) { this.matrix = { ...ident(), a: x, d: y }; this.type = 3; }
  setMatrix(m) { this.matrix = { a: m.a, b: m.b, c: m.c, d: m.d, e: m.e, f: m.f }; this.type = 1; }
}
function parseTransform(text) {
  const out = [];
  for (const [, name, args] of (text || '').matchAll(/(\w+)\s*\(([^)]*)\)/g)) {
    const a = args.trim().split(/[\s,]+/).map(Number);
    const t = new SVGTransform();
    if (name === 'matrix') t.matrix = { a: a[0], b: a[1], c: a[2], d: a[3], e: a[4], f: a[5] };
    else if (name === 'translate') t.setTranslate(a[0], a[1] ?? 0);
    else if (name === 'scale') t.setScale(a[0], a[1] ?? a[0]);
    else if (name === 'rotate') t.setRotate(a[0], a[1] ?? 0, a[2] ?? 0);
    else throw new Error('transform ' + name);
    out.push(t);
  }
  return out;
}

class TransformList {
  constructor(el) { this.el = el; this.items = parseTransform(el._attr.get('transform')); }
  get numberOfItems() { return this.items.length; }
  get length() { return this.items.length; }
  getItem(i) { if (!(i >= 0 && i < this.items.length)) throw new Error('IndexSizeError'); return this.items[i]; }
  // (a transform which already belongs to a list is copied)
  _own(t) { if (t._list) { const c = new SVGTransform({ ...t.matrix }); c.angle = t.angle; c.type = t.type; t = c; } t._list = this; return t; }
  appendItem(t) { t = this._own(t); this.items.push(t); return t; }
  insertItemBefore(t, i) { t = this._own(t); this.items.splice(i, 0, t); return t; }
  replaceItem(t, i) { t = this._own(t); this.items[i] = t; return t; }
  removeItem(i) { const [t] = this.items.splice(i, 1); t._list = null; return t; }
  clear() { this.items = []; }
  initialize(t) { this.items = []; return this.appendItem(t); }
  consolidate() { if (!this.items.length) return null; const t = new SVGTransform(this.items.reduce((m, x) => mul(m, x.matrix), ident())); this.items = []; return this.appendItem(t); }
  createSVGTransformFromMatrix(m) { const t = new SVGTransform(); t.setMatrix(m); return t; }
}

// --- elements --------------------------------------------------------------------------
let counter = 0;
const all = [];
class Element {
  constructor(tree, doc) {
    this.ownerDocument = doc;
    this.tagName = this.nodeName = this.localName = tree.tag;
    this._attr = new Map(Object.entries(tree.attrs));
    this._style = parseStyle(this._attr.get('style'));
    this._text = tree.text; // (only its own text; children follow)
    this._bbox = tree.bbox;
    this.idx = counter++;
    this.style = makeStyle(this);
    this.children = tree.children.map((c) => new Element(c, doc));
    for (const c of this.children) c.parentNode = c.parentElement = this;
    this._list = null;
    all[this.idx] = this;
    this._listeners = {};
    this.dataset = {};
  }
  get id() { return this._attr.get('id') ?? ''; }
  get childNodes() { return this.children; }
  get transform() { this._list ??= new TransformList(this); const l = this._list; return { baseVal: l, animVal: l }; }
  getAttribute(n) { return n === 'style' ? this.style.cssText : this._attr.has(n) ? this._attr.get(n) : null; }
  hasAttribute(n) { return this._attr.has(n); }
  setAttribute(n, v) {
    v = String(v);
    this._attr.set(n, v);
    if (n === 'style') this._style = parseStyle(v);
    if (n === 'transform') { if (this._list) this._list.items = parseTransform(v); }
  }
  setAttributeNS(ns, n, v) { this.setAttribute(n, v); }
  getAttributeNS(ns, n) { return this.getAttribute(n); }
  removeAttribute(n) { this._attr.delete(n); if (n === 'style') this._style = new Map(); if (n === 'transform' && this._list) this._list.items = []; }
  _set(v) {
    // Replaces the content: the children leave the document.
    for (const c of this.children) c._detach();
    this.children = [];
    this._text = v === null ? '' : String(v);
  }
  _detach() { this._gone = true; for (const c of this.children) c._detach(); }
  get textContent() { return (this._text ?? '') + this.children.map((c) => c.textContent).join(''); }
  set textContent(v) { this._set(v); }
  get innerHTML() { return this.textContent; }
  set innerHTML(v) { this._set(String(v).replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&amp;/g, '&')); }
  get innerText() { return this.textContent; }
  set innerText(v) { this._set(v); }
  get firstChild() {
    const el = this;
    if (this._text) return { get nodeValue() { return el._text; }, set nodeValue(v) { el._text = String(v); }, get data() { return el._text; }, set data(v) { el._text = String(v); }, get textContent() { return el._text; }, set textContent(v) { el._text = String(v); } };
    return this.children[0] ?? null;
  }
  getBBox() { const b = this._bbox ?? [0, 0, 0, 0]; return { x: b[0], y: b[1], width: b[2], height: b[3] }; }
  createSVGTransform() { return new SVGTransform(); }
  createSVGMatrix() { return ident(); }
  querySelector(s) { return this.querySelectorAll(s)[0] ?? null; }
  querySelectorAll(s) { return s.split(',').flatMap((q) => { q = q.trim(); return all.filter((e) => e.ownerDocument === this.ownerDocument && !e._gone && (q === e.tagName || q === '#' + e.id || q === e.tagName + '#' + e.id || q === '[id="' + e.id + '"]')); }); }
  addEventListener() {}
  removeEventListener() {}
  appendChild(c) { throw new Error('stub: appendChild'); }
  get classList() { return { add() {}, remove() {}, toggle() {} }; }
  state() {
    const m = (this._list ? this._list.items : parseTransform(this._attr.get('transform'))).reduce((q, x) => mul(q, x.matrix), ident());
    const g = (n) => this._attr.get(n) ?? null;
    return { text: this.textContent, fill: this._style.get('fill') ?? g('fill'), stroke: this._style.get('stroke') ?? g('stroke'), display: this._style.get('display') ?? g('display'), visibility: this._style.get('visibility') ?? g('visibility'), opacity: this._style.get('opacity') ?? g('opacity'), x: g('x'), y: g('y'), width: this._style.get('width') ?? g('width'), height: this._style.get('height') ?? g('height'), m: [m.a, m.b, m.c, m.d, m.e, m.f], gone: !!this._gone };
  }
}

class Document {
  constructor(tree) { this.documentElement = new Element(tree, this); this.readyState = 'complete'; this.rootElement = this.documentElement; }
  getElementById(id) { return all.find((e) => e.ownerDocument === this && !e._gone && e.id === String(id)) ?? null; }
  querySelector(s) { return this.documentElement.querySelector(s); }
  querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
  getElementsByTagName(t) { return all.filter((e) => e.ownerDocument === this && e.tagName === t); }
  createElementNS() { throw new Error('stub: createElementNS'); }
}

const svgDoc = new Document(input.svg);
const errors = [];

// --- the window ------------------------------------------------------------------------------
const listeners = {};
let socket = null;
class WebSocket {
  constructor(url) { this.url = String(url); this._l = {}; this.readyState = 1; socket = this; }
  addEventListener(n, f) { (this._l[n] ??= []).push(f); }
  removeEventListener() {}
  send() {}
  close() {}
  fire(n, e) {
    for (const f of [this['on' + n], ...(this._l[n] ?? [])]) if (f) f.call(this, e);
  }
}
const htmlObjects = Object.fromEntries(input.objects.map((id) => [id, { id, contentDocument: svgDoc, getSVGDocument: () => svgDoc, addEventListener: (n, f) => n === 'load' && (listeners.load ??= []).push(f) }]));
const document = {
  readyState: 'complete',
  getElementById: (id) => htmlObjects[id] ?? null,
  querySelector: (s) => htmlObjects[s.replace(/^#/, '')] ?? Object.values(htmlObjects)[0] ?? null,
  addEventListener: (n, f) => (listeners[n] ??= []).push(f),
};
const sandbox = {
  document, WebSocket,
  console: { log() {}, error() {}, warn() {}, info() {}, debug() {} },
  addEventListener: (n, f) => (listeners[n] ??= []).push(f),
  removeEventListener() {},
  setTimeout: (f) => (f(), 1), clearTimeout() {}, setInterval: () => 1, clearInterval() {},
  requestAnimationFrame: (f) => (f(0), 1), queueMicrotask: (f) => f(),
  location: { protocol: 'http:', hostname: '127.0.0.1' },
  SVGTransform,
};
sandbox.window = sandbox.self = sandbox.globalThis = sandbox;
const context = vm.createContext(sandbox);
const guard = (f) => { try { f(); } catch (e) { errors.push(String((e && e.stack) || e).slice(0, 600)); } };
for (const s of input.scripts) guard(() => vm.runInContext(s.code, context, { filename: s.name }));
for (const n of ['DOMContentLoaded', 'load']) {
  for (const f of listeners[n] ?? []) guard(() => f.call(sandbox, { type: n }));
  if (n === 'load') guard(() => input.onload && vm.runInContext(input.onload, context, { filename: 'onload' }));
  if (n === 'load' && typeof sandbox.onload === 'function') guard(() => sandbox.onload({ type: n }));
}
const initial = all.map((e) => e.state());
const same = initial.map((s) => JSON.stringify(s));
const out = { url: socket && socket.url, initial, errors: errors.splice(0), snapshots: [] };
if (socket) guard(() => socket.fire('open', {}));
for (const m of input.messages) {
  guard(() => { if (!socket) throw new Error('the page opened no WebSocket'); socket.fire('message', { data: m }); });
  const changed = {};
  for (const e of all) {
    if (!e.idx && e.idx !== 0) continue;
    const s = e.state(), j = JSON.stringify(s);
    if (j !== same[e.idx]) changed[e.idx] = s;
  }
  out.snapshots.push({ changed, errors: errors.splice(0) });
}
fs.writeSync(1, JSON.stringify(out));
