// C28: puts jobs together in the block editor as the server serves it, with a stand-in for the Blockly library,
// presses its buttons and writes down what they do. Usage: node editor.js PAGES ORIGIN SCENARIOS OUT
const fs = require('fs'), vm = require('vm');
const [pages, origin, scen, out] = process.argv.slice(2);

class Field {
  constructor(a) { this.a = a; }
  getValue() { return this.value; }
}
class TextField extends Field {
  constructor(a) { super(a); this.value = String(a.text === undefined ? '' : a.text); }
  set(s) { this.value = s; }
}
class NumberField extends Field {   // as FieldNumber: cast, clamp, round to the precision
  constructor(value, min, max, precision, validator, config) {
    super(config || {});
    const c = config || {};
    this.min_ = c.min === undefined ? -Infinity : +c.min;
    this.max_ = c.max === undefined ? Infinity : +c.max;
    this.precision_ = +c.precision || 0;
    this.decimals = this.precision_ ? (String(this.precision_).split('.')[1] || '').length : null;
    this.setValue(value === undefined ? 0 : value);
  }
  setValue(v) {
    let n = Number(v);
    if (isNaN(n)) throw new Error('not a number: ' + v);
    n = Math.min(Math.max(n, this.min_), this.max_);
    if (this.precision_ && isFinite(n)) n = Math.round(n / this.precision_) * this.precision_;
    if (this.decimals !== null) n = Number(n.toFixed(this.decimals));
    this.value = n;
  }
  setEditorValue_(v) { this.setValue(v); }
  set(s) { this.setValue(Number(s) / 1000); }
}
class AngleField extends NumberField {
  constructor(a) { super(a.angle === undefined ? 0 : a.angle); }
  setValue(v) { let n = Number(v) % 360; if (n < 0) n += 360; this.value = n; }
}
class ChoiceField extends Field {
  constructor(a) { super(a); this.value = a.options[0][1]; }
  set(s) {
    const o = this.a.options.find(o => o[0] === s);
    if (!o) throw new Error('there is no choice ' + s);
    this.value = o[1];
  }
}
const registry = { field_input: { fromJson: a => new TextField(a) }, field_number: { fromJson: a => new NumberField(a.value, 0, 0, 0, null, a) },
  field_angle: { fromJson: a => new AngleField(a) }, field_dropdown: { fromJson: a => new ChoiceField(a) } };
const definitions = {};

class Block {
  constructor(type) {
    const d = definitions[type];
    if (!d) throw new Error('no block ' + type);
    this.type = type; this.fields = []; this.inputs = []; this.next = null; this.enabled = true; this.outputConnection = null;
    for (let i = 0; d['message' + i] !== undefined; i++) for (const a of d['args' + i] || []) {
      if (a.type === 'input_statement') this.inputs.push({ name: a.name, target: null });
      else {
        if (!registry[a.type]) throw new Error('no field ' + a.type);
        this.fields.push({ name: a.name, field: registry[a.type].fromJson(a) });
      }
    }
    const b = this;
    this.nextConnection = 'nextStatement' in d ? { targetBlock: () => b.next } : null;
  }
  isEnabled() { return this.enabled; }
  isInsertionMarker() { return false; }
  getField(n) { const f = this.fields.find(f => f.name === n); return f ? f.field : null; }
  getFieldValue(n) { const f = this.getField(n); return f ? f.getValue() : null; }
  getInputTargetBlock(n) { const i = this.inputs.find(i => i.name === n); return i ? i.target : null; }
  getNextBlock() { return this.next; }
}
class Generator {   // as Blockly.Generator
  constructor(name) { this.name_ = name; this.INDENT = '  '; }
  init() {} finish(code) { return code; } scrubNakedValue(l) { return l; } scrub_(b, code) { return code; }
  prefixLines(text, prefix) { return prefix + text.replace(/(?!\n$)\n/g, '\n' + prefix); }
  blockToCode(block, thisOnly) {
    if (!block) return '';
    if (!block.isEnabled()) return thisOnly ? '' : this.blockToCode(block.getNextBlock());
    if (typeof this[block.type] !== 'function') throw new Error('no generator for ' + block.type);
    const code = this[block.type].call(block, block, this);
    if (code === null) return '';
    if (typeof code !== 'string') throw new Error('generator of ' + block.type + ' returned ' + code);
    return this.scrub_(block, code, thisOnly);
  }
  statementToCode(block, name) {
    let code = this.blockToCode(block.getInputTargetBlock(name));
    if (code) code = this.prefixLines(code, this.INDENT);
    return code;
  }
  workspaceToCode(ws) {
    const code = [];
    this.init(ws);
    for (const b of ws.getTopBlocks(true)) { const line = this.blockToCode(b); if (line) code.push(line); }
    return this.finish(code.join('\n')).replace(/^\s+\n/, '').replace(/\n\s+$/, '\n').replace(/[ \t]+\n/g, '\n');
  }
}
const anything = () => new Proxy(function () {}, { get: (t, k) => k === Symbol.toPrimitive ? () => '' : anything(), set: () => true, apply: () => anything(), construct: () => anything() });

function page() {
  const html = fs.readFileSync(pages + '/index.html', 'utf8'), live = html.replace(/<!--[\s\S]*?-->/g, '');
  const elements = {}, posts = [], alerts = [];
  for (const m of live.matchAll(/\bid\s*=\s*["']?([\w-]+)/g)) elements[m[1]] = { textContent: '', style: {}, offsetLeft: 0, offsetTop: 0, offsetWidth: 800, offsetHeight: 600, offsetParent: null, addEventListener(t, f) { this['on' + t] = f; } };
  const ws = { top: [], getTopBlocks() { return this.top; } };
  const toolboxes = [];
  const B = { Generator, FieldNumber: NumberField, FieldAngle: {}, fieldRegistry: { register: (n, c) => { registry[n] = c; } }, Css: { register() {} },
    defineBlocksWithJsonArray: a => { for (const d of a) { if (definitions[d.type]) throw new Error('defined twice: ' + d.type); definitions[d.type] = d; } },
    inject: (e, o) => { if (!e) throw new Error('no element for the editor'); toolboxes.push(o.toolbox); return ws; }, svgResize() {},
    Theme: { defineTheme: (n, t) => t }, Themes: anything() };
  const Blockly = new Proxy(B, { get: (t, k) => k in t ? t[k] : anything() });
  const reply = 'first \u00e9 \u{1f52d} line\nsecond';
  const ctx = { Blockly, console, Headers, TextDecoder, Uint8Array, URL, location: new URL(origin + '/'), alert: s => alerts.push(String(s)),
    document: { getElementById: id => elements[id] || null, querySelector: q => elements[q.replace(/^#/, '')] || null, addEventListener() {} },
    fetch: async (url, o) => {
      posts.push({ url: String(new URL(url, origin + '/')), method: o.method, ctype: new Headers(o.headers).get('content-type') || '', body: o.body });
      const bytes = Buffer.from(reply), chunks = Array.from(bytes, b => Uint8Array.of(b));
      return { ok: true, status: 200, text: async () => reply, body: { getReader: () => ({ read: async () => chunks.length ? { done: false, value: chunks.shift() } : { done: true, value: undefined } }) } };
    } };
  ctx.window = ctx; ctx.addEventListener = () => {};
  vm.createContext(ctx);
  for (const m of live.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)) {
    const src = /src\s*=\s*["']([^"']+)/.exec(m[1]);
    if (src && /^\/?blockly\//.test(src[1])) continue;
    vm.runInContext(src ? fs.readFileSync(pages + '/' + src[1].replace(/^\//, ''), 'utf8') : m[2], ctx, { filename: src ? src[1] : 'index.html' });
  }
  const press = label => {   // the first button with this label
    for (const m of live.matchAll(/<button([^>]*)>([\s\S]*?)<\/button>/g)) if (m[2].toLowerCase().includes(label)) {
      const c = /onclick\s*=\s*(?:"([^"]*)"|'([^']*)')/.exec(m[1]), id = /\bid\s*=\s*["']?([\w-]+)/.exec(m[1]);
      return c ? vm.runInContext(c[1] || c[2], ctx) : elements[id[1]].onclick({ preventDefault() {} });
    }
    throw new Error('no button ' + label);
  };
  return { ctx, press, ws, elements, posts, alerts, reply, toolboxes };
}

function chain(list) {
  let first = null, last = null;
  for (const x of list) {
    const b = new Block(x.b);
    b.enabled = x.on;
    if (x.sh.length !== b.fields.length) throw new Error(x.b + ' has ' + b.fields.length + ' fields');
    x.sh.forEach((s, i) => { if (s !== '-') b.fields[i].field.set(s); });
    if (x.n.length !== b.inputs.length) throw new Error(x.b + ' has ' + b.inputs.length + ' inputs');
    x.n.forEach((c, i) => { b.inputs[i].target = chain(c); });
    if (last) last.next = b; else first = b;
    last = b;
  }
  return first;
}
(async () => {
  let p, loadError = '';
  try { p = page(); } catch (e) { loadError = String(e); }
  const res = [];
  const names = [];
  const walk = t => { for (const c of (t && t.contents) || []) c.kind === 'block' ? names.push(c.type) : walk(c); };
  if (p) p.toolboxes.forEach(walk);
  for (const l of fs.readFileSync(scen, 'utf8').split('\n').filter(Boolean)) {
    const s = JSON.parse(l), r = { ws: s.ws, err: loadError, url: '', method: '', ctype: '', body: '', posts: 0, shown: false, log: false };
    if (p) try {
      p.ws.top = s.ws.length ? [chain(s.ws)] : [];
      for (const e of Object.values(p.elements)) e.textContent = '';
      p.posts.length = 0; p.alerts.length = 0;
      await p.press('run');
      for (let i = 0; i < 200 && !(p.elements.logMessages && p.elements.logMessages.textContent === p.reply); i++) await new Promise(f => setImmediate(f));
      r.posts = p.posts.length;
      Object.assign(r, p.posts[0]);
      r.log = Object.values(p.elements).some(e => e.textContent === p.reply) && p.alerts.length === 0;
      p.press('show');
      r.shown = Object.values(p.elements).some(e => e.textContent === r.body) || p.alerts.includes(r.body);
    } catch (e) { r.err = String(e); }
    res.push(JSON.stringify(r));
  }
  fs.writeFileSync(out, res.join('\n') + '\n');
  const tools = names.map(type => {
    let ok = false;
    try { new Block(type); ok = vm.runInContext('typeof Json[' + JSON.stringify(type) + ']', p.ctx) === 'function'; } catch (e) {}
    return { type, ok };
  });
  fs.writeFileSync(out + '.toolbox', JSON.stringify(tools));
})();
