// Runs the scripts of the demo page (index.html) with stand-ins for the browser's
// document and fetch. Usage: node page.js index.html
//
// Reads one case per line on stdin ({texts: {url key: text}, steps: [...]}) and
// answers each by one line with what the page shows after every step.
"use strict";
const vm = require("node:vm");
const fs = require("node:fs");
const readline = require("node:readline");

const VOID = new Set(["meta", "link", "br", "hr", "img", "input"]);
const NAMED = { lt: "<", gt: ">", amp: "&", quot: '"', apos: "'", nbsp: "\u00a0" };

function decode(s) {
    return s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (all, name) => {
        if (name[0] === "#") {
            return String.fromCodePoint(name[1] === "x" || name[1] === "X" ? parseInt(name.slice(2), 16) : parseInt(name.slice(1), 10));
        }
        return Object.hasOwn(NAMED, name) ? NAMED[name] : all;
    });
}

class Text {
    constructor(data) { this.data = data; }
    get textContent() { return this.data; }
}

class El {
    constructor(page, tag) {
        this.page = page;
        this.localName = tag;
        this.tagName = this.nodeName = tag.toUpperCase();
        this.attrs = {};
        this.childNodes = [];
        this.parentNode = null;
        this.listeners = {};
        this.style = { setProperty() { }, removeProperty() { } };
        this.dataset = {};
        this.disabled = false;
        this.hidden = false;
        const classes = new Set();
        this.classList = { add: (...c) => c.forEach(x => classes.add(x)), remove: (...c) => c.forEach(x => classes.delete(x)),
            toggle: c => classes.has(c) ? (classes.delete(c), false) : (classes.add(c), true), contains: c => classes.has(c) };
        this.picked = -1; // of a select
    }
    get id() { return this.attrs.id || ""; }
    set id(v) { this.attrs.id = String(v); }
    get className() { return this.attrs.class || ""; }
    set className(v) { this.attrs.class = String(v); }
    get name() { return this.attrs.name || ""; }
    get children() { return this.childNodes.filter(c => c instanceof El); }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get parentElement() { return this.parentNode; }
    getAttribute(n) { return Object.hasOwn(this.attrs, n) ? this.attrs[n] : null; }
    hasAttribute(n) { return Object.hasOwn(this.attrs, n); }
    setAttribute(n, v) { this.attrs[n] = String(v); if (n === "disabled") this.disabled = true; }
    removeAttribute(n) { delete this.attrs[n]; if (n === "disabled") this.disabled = false; }

    get textContent() { return this.childNodes.map(c => c.textContent).join(""); }
    set textContent(v) { this.childNodes = v === null || v === "" ? [] : [new Text(String(v))]; }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() {
        const esc = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
        const out = n => n instanceof Text ? esc(n.data) :
            "<" + n.localName + Object.entries(n.attrs).map(([k, v]) => " " + k + '="' + v.replace(/&/g, "&amp;").replace(/"/g, "&quot;") + '"').join("") + ">" +
            (VOID.has(n.localName) ? "" : n.childNodes.map(out).join("") + "</" + n.localName + ">");
        return this.childNodes.map(out).join("");
    }
    set innerHTML(v) { this.childNodes = []; parse(this.page, String(v), this); }
    insertAdjacentHTML(where, v) { parse(this.page, String(v), this); }

    append(...nodes) { for (const n of nodes) this.appendChild(n instanceof El || n instanceof Text ? n : new Text(String(n))); }
    appendChild(n) {
        if (n instanceof El && n.localName === "#fragment") { [...n.childNodes].forEach(c => this.appendChild(c)); return n; }
        if (n.parentNode) n.parentNode.removeChild(n);
        n.parentNode = this;
        this.childNodes.push(n);
        return n;
    }
    insertBefore(n, ref) {
        if (n.parentNode) n.parentNode.removeChild(n);
        const i = ref ? this.childNodes.indexOf(ref) : -1;
        n.parentNode = this;
        if (i < 0) this.childNodes.push(n); else this.childNodes.splice(i, 0, n);
        return n;
    }
    prepend(...nodes) { for (const n of nodes.reverse()) this.insertBefore(n instanceof El || n instanceof Text ? n : new Text(String(n)), this.firstChild); }
    removeChild(n) {
        const at = this.localName === "select" ? this.options.indexOf(n) : -1;
        this.childNodes = this.childNodes.filter(c => c !== n);
        if (at >= 0 && at <= this.picked) this.picked = at === this.picked ? 0 : this.picked - 1;
        n.parentNode = null;
        return n;
    }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    replaceChildren(...nodes) { this.childNodes = []; this.append(...nodes); }

    // select and option
    get options() {
        const list = this.descendants().filter(e => e.localName === "option");
        return Object.assign(list, { add: (o, before) => this.add(o, before), item: i => list[i] || null, namedItem: n => list.find(o => o.id === n || o.name === n) || null });
    }
    add(o, before) { if (before) this.insertBefore(o, before); else this.appendChild(o); }
    get selectedIndex() { return this.picked < 0 && this.options.length ? (this.picked = 0) : this.picked; }
    set selectedIndex(i) { this.picked = i; }
    get selectedOptions() { const o = this.options[this.selectedIndex]; return o ? [o] : []; }
    get selected() { const s = this.selectOf(); return !!s && s.selectedOptions[0] === this; }
    set selected(v) { const s = this.selectOf(); if (v && s) s.picked = s.options.indexOf(this); }
    selectOf() { let p = this.parentNode; while (p && p.localName !== "select") p = p.parentNode; return p; }
    get text() { return this.textContent; }
    set text(v) { this.textContent = v; }
    get value() {
        if (this.localName === "select") { const o = this.selectedOptions[0]; return o ? o.value : ""; }
        return this.hasAttribute("value") ? this.attrs.value : this.localName === "option" ? this.textContent : "";
    }
    set value(v) {
        if (this.localName === "select") { this.picked = this.options.findIndex(o => o.value === String(v)); if (this.picked < 0) this.picked = -2; return; }
        this.attrs.value = String(v);
    }

    descendants() { return this.children.flatMap(c => [c, ...c.descendants()]); }
    matches(sel) {
        return sel.split(",").some(s => {
            const m = /^([a-z]*)(#[\w-]+)?((?:\.[\w-]+)*)$/i.exec(s.trim().split(/\s+/).pop());
            return !!m && (!m[1] || m[1].toLowerCase() === this.localName) && (!m[2] || m[2].slice(1) === this.id) &&
                (m[3] || "").split(".").filter(Boolean).every(c => this.className.split(/\s+/).includes(c));
        });
    }
    querySelectorAll(sel) { return this.descendants().filter(e => e.matches(sel)); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    closest(sel) { let e = this; while (e && !e.matches(sel)) e = e.parentNode; return e; }
    contains(other) { while (other && other !== this) other = other.parentNode; return !!other; }
    cloneNode(deep) {
        const c = new El(this.page, this.localName);
        Object.assign(c.attrs, this.attrs);
        if (deep) c.append(...this.childNodes.map(n => n instanceof El ? n.cloneNode(true) : new Text(n.data)));
        return c;
    }
    insertAdjacentText(where, s) { this.append(new Text(String(s))); }
    focus() { }
    scrollIntoView() { }
    getElementsByTagName(t) { return this.descendants().filter(e => e.localName === t.toLowerCase()); }

    addEventListener(type, f) { (this.listeners[type] = this.listeners[type] || []).push(f); }
    removeEventListener(type, f) { this.listeners[type] = (this.listeners[type] || []).filter(g => g !== f); }
    dispatchEvent(event) { this.fire(event.type, event); return true; }
    click() { if (!this.disabled) this.fire("click"); }
    // fire runs the handlers of the element and of those around it.
    fire(type, event = { type, preventDefault() { }, bubbles: type !== "load" }) {
        let stopped = false;
        event.stopPropagation = event.stopImmediatePropagation = () => { stopped = true; };
        try { event.target = this; } catch { } // An Event has no target to set
        for (let el = this; el && !stopped; el = event.bubbles ? el.parentNode : null) {
            el.handle(type, event);
        }
    }
    handle(type, event) {
        try { event.currentTarget = this; } catch { }
        const attr = this.attrs["on" + type];
        if (typeof this["on" + type] === "function") {
            this.page.call(() => this["on" + type](event));
        } else if (attr !== undefined) {
            this.page.call(() => vm.runInContext("(function (event) {" + attr + "\n})", this.page.context).call(this, event));
        }
        for (const f of [...this.listeners[type] || []]) this.page.call(() => f.handleEvent ? f.handleEvent(event) : f.call(this, event));
    }
}

// Appends what an HTML text holds to an element.
function parse(page, html, root) {
    const stack = [root];
    const top = () => stack[stack.length - 1];
    let at = 0;
    const text = s => { if (s) { const t = new Text(decode(s)); t.parentNode = top(); top().childNodes.push(t); } };
    const re = /<!--[^]*?-->|<!doctype[^>]*>|<(\/?)([a-z][\w-]*)((?:"[^"]*"|'[^']*'|[^>"'])*)>/gi;
    let m;
    while ((m = re.exec(html))) {
        text(html.slice(at, m.index));
        at = re.lastIndex;
        if (!m[2]) continue;
        const tag = m[2].toLowerCase();
        if (m[1]) {
            const i = stack.findLastIndex((e, n) => n > 0 && e.localName === tag);
            if (i > 0) stack.length = i;
            continue;
        }
        const el = new El(page, tag);
        for (const a of m[3].matchAll(/([^\s=\/"'>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'>]+)))?/g)) {
            el.attrs[a[1].toLowerCase()] = decode(a[2] ?? a[3] ?? a[4] ?? "");
        }
        if (tag === "option") while (top().localName === "option") stack.pop();
        el.parentNode = top();
        top().childNodes.push(el);
        if (tag === "option" && el.hasAttribute("selected")) el.selected = true;
        if (el.hasAttribute("disabled")) el.disabled = true;
        if (tag === "script" || tag === "style") {
            const end = html.toLowerCase().indexOf("</" + tag, at);
            el.childNodes.push(new Text(html.slice(at, end < 0 ? html.length : end)));
            at = end < 0 ? html.length : html.indexOf(">", end) + 1;
            re.lastIndex = at;
        } else if (!VOID.has(tag) && !/\/\s*$/.test(m[3])) {
            stack.push(el);
        }
    }
    text(html.slice(at));
}

class Page {
    constructor(html, texts) {
        this.errors = [];
        this.pending = []; // answers on their way
        this.timers = [];
        this.rejections = [];
        const root = new El(this, "#document");
        const page = this;
        parse(this, html, root);
        root.getElementById = id => root.descendants().find(e => e.id === id) || null;
        root.createElement = tag => new El(page, tag.toLowerCase());
        root.createTextNode = s => new Text(String(s));
        root.createDocumentFragment = () => new El(page, "#fragment");
        root.body = root.getElementsByTagName("body")[0] || root;
        root.head = root.getElementsByTagName("head")[0] || root;
        root.documentElement = root.getElementsByTagName("html")[0] || root;
        root.readyState = "loading";
        this.document = root;

        const base = "http://localhost:8080/";
        const arrive = value => new Promise(resolve => this.pending.push(() => resolve(value)));
        const win = new El(this, "#window");
        root.parentNode = win;
        const globals = {
            document: root, console: { log() { }, warn() { }, error() { }, info() { }, debug() { } },
            fetch(input, init) {
                const url = new URL(typeof input === "string" ? input : input.url || String(input), base);
                const key = [url.pathname, url.searchParams.get("car") ?? "", url.searchParams.get("patch") ?? ""].join(" ");
                const known = Object.hasOwn(texts, key);
                const body = known ? texts[key] : "";
                if (!known) page.errors.push("the page asks for " + url.pathname + url.search);
                const answer = arrive({
                    ok: true, status: 200, statusText: "OK", url: url.href,
                    headers: { get: () => "text/plain" },
                    text: () => arrive(body),
                    json: () => arrive(body).then(JSON.parse),
                });
                const signal = init && init.signal;
                if (!signal) return answer;
                return Promise.race([answer, new Promise((_, reject) => {
                    const abort = () => reject(new DOMException("The operation was aborted.", "AbortError"));
                    if (signal.aborted) abort(); else signal.addEventListener("abort", abort);
                })]);
            },
            setTimeout: (f, ms, ...a) => { page.timers.push(() => f(...a)); return page.timers.length; },
            clearTimeout: id => { if (id > 0) page.timers[id - 1] = null; },
            requestAnimationFrame: f => { page.timers.push(() => f(0)); return page.timers.length; },
            queueMicrotask, URL, URLSearchParams, AbortController, AbortSignal, Event, structuredClone, TextDecoder, TextEncoder,
            DOMException, Headers, Request, performance,
            Option: function (text, value) { const o = new El(page, "option"); o.text = text ?? ""; if (value !== undefined) o.value = value; return o; },
            alert() { }, location: new URL(base), navigator: { userAgent: "" },
            localStorage: storage(), sessionStorage: storage(),
            addEventListener: (t, f) => win.addEventListener(t, f), removeEventListener: (t, f) => win.removeEventListener(t, f),
        };
        this.context = vm.createContext(globals);
        globals.window = globals.self = this.context;
        for (const s of root.getElementsByTagName("script")) {
            if (!s.hasAttribute("src")) this.call(() => vm.runInContext(s.textContent, this.context, { timeout: 5000 }));
        }
        root.readyState = "complete";
        root.fire("DOMContentLoaded");
        const onload = root.body.attrs.onload;
        if (typeof globals.onload === "function") this.call(() => globals.onload({ type: "load" }));
        else if (onload) this.call(() => vm.runInContext(onload, this.context));
        win.fire("load");
    }

    call(f) {
        try {
            const r = f();
            if (r && typeof r.then === "function") r.then(() => { }, e => this.errors.push(String(e && e.stack || e)));
        } catch (e) {
            this.errors.push(String(e && e.stack || e));
        }
    }

    // Lets everything run which waits for no answer.
    async calm() {
        for (let round = 0; round < 50; round++) {
            await new Promise(r => setImmediate(r));
            if (!this.timers.some(Boolean)) return;
            const timers = this.timers;
            this.timers = [];
            timers.forEach(t => t && this.call(t));
        }
    }

    async settle(order) {
        for (let i = 0; this.pending.length && i < 2000; i++) {
            const at = order.length ? order[i % order.length] % this.pending.length : 0;
            this.pending.splice(at, 1)[0]();
            await this.calm();
        }
    }

    look() {
        const get = id => this.document.getElementById(id);
        const box = id => {
            const e = get(id);
            if (!e) { this.errors.push("the page has no element " + id); return { text: "", foreign: "" }; }
            return { text: e.textContent, foreign: e.descendants().map(d => d.localName).filter(n => n !== "span").join(" ") };
        };
        const value = id => { const e = get(id); return e ? e.value : ""; };
        const names = get("snapshotSelect");
        return {
            car: value("carSelect"), patch: value("patchSelect"), button: (get("appendSnapshotBtn") || { textContent: "" }).textContent.trim(),
            disabled: !!(get("appendSnapshotBtn") || {}).disabled,
            view: box("view"), patches: box("patch"), result: box("result"), saved: box("snapshotView"),
            name: value("snapshotSelect"), names: names ? names.options.map(o => o.value) : [],
            pending: this.pending.length, errors: this.errors.splice(0),
        };
    }
}

function storage() {
    const m = new Map();
    return { getItem: k => m.has(k) ? m.get(k) : null, setItem: (k, v) => m.set(k, String(v)), removeItem: k => m.delete(k), clear: () => m.clear() };
}

let current = null;
process.on("unhandledRejection", e => { if (current) current.errors.push(String(e && e.stack || e)); });
process.on("uncaughtException", e => { if (current) current.errors.push(String(e && e.stack || e)); });

async function run(k, html) {
    const page = current = new Page(html, k.texts);
    await page.calm();
    const seen = [];
    for (const s of k.steps) {
        s.n = s.n || 0;
        const get = id => page.document.getElementById(id);
        const choose = (el, i) => {
            if (!el || !el.options.length || el.selectedIndex === i % el.options.length) return;
            el.selectedIndex = i % el.options.length;
            el.fire("input");
            el.fire("change");
        };
        switch (s.do) {
            case "car": choose(get("carSelect"), s.n); break;
            case "patch": choose(get("patchSelect"), s.n); break;
            case "saved": choose(get("snapshotSelect"), s.n); break;
            case "press": { const b = get("appendSnapshotBtn"); if (b) b.click(); break; }
            case "deliver": if (page.pending.length) page.pending.splice(s.n % page.pending.length, 1)[0](); break;
            case "settle": await page.settle(s.order || []); break;
        }
        await page.calm();
        seen.push(page.look());
    }
    return seen;
}

(async () => {
    const html = fs.readFileSync(process.argv[2], "utf8");
    for await (const line of readline.createInterface({ input: process.stdin })) {
        let out;
        try { out = { seen: await run(JSON.parse(line), html) }; } catch (e) { out = { failed: String(e && e.stack || e) }; }
        process.stdout.write(JSON.stringify(out) + "\n");
    }
})();
