// A small browser: runs the pages of the web service with stand-ins for the libraries that it loads from elsewhere.
// Reads one visit per line, {html, url, storage, scripts, replies, events}, and writes what is then on the page.
import vm from "node:vm";
import readline from "node:readline";

const VOID = new Set("area base br col embed hr img input link meta source track wbr".split(" "));
const RAW = new Set(["script", "style", "textarea", "title"]);
const ENDS = { td: ["td", "th"], th: ["td", "th"], tr: ["tr", "td", "th"], option: ["option"], li: ["li"], p: ["p"] };
const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = (s) => s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (m, e) =>
	e[0] === "#" ? String.fromCodePoint(e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : ENT[e] ?? m);
const encode = (s) => s.replace(/[&<>"]/g, (c) => ({ "&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;" })[c]);

class Text {
	constructor(t) { this.data = t; this.parentNode = null; }
	get textContent() { return this.data; }
}

class ClassList {
	constructor(e) { this.e = e; }
	get all() { return (this.e.getAttribute("class") ?? "").split(/\s+/).filter(Boolean); }
	set all(l) { this.e.setAttribute("class", [...new Set(l)].join(" ")); }
	add(...c) { this.all = [...this.all, ...c]; }
	remove(...c) { this.all = this.all.filter((x) => !c.includes(x)); }
	contains(c) { return this.all.includes(c); }
	toggle(c, f) { const on = f ?? !this.contains(c); on ? this.add(c) : this.remove(c); return on; }
}

class Element {
	constructor(page, tag) {
		Object.assign(this, { page, tagName: tag.toUpperCase(), tag, attrs: new Map(), childNodes: [], parentNode: null, handlers: [], props: {}, picked: undefined });
		this.style = { setProperty: (k, v) => { this.style[k] = v; }, removeProperty: (k) => { delete this.style[k]; } };
		this.dataset = new Proxy({}, {
			get: (_, k) => this.getAttribute("data-" + String(k).replace(/[A-Z]/g, (c) => "-" + c.toLowerCase())) ?? undefined,
			set: (_, k, v) => (this.setAttribute("data-" + String(k).replace(/[A-Z]/g, (c) => "-" + c.toLowerCase()), v), true),
		});
	}
	get children() { return this.childNodes.filter((c) => c instanceof Element); }
	get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
	get firstChild() { return this.childNodes[0] ?? null; }
	get firstElementChild() { return this.children[0] ?? null; }
	get nextElementSibling() { const l = this.parentNode?.children ?? []; return l[l.indexOf(this) + 1] ?? null; }
	get previousElementSibling() { const l = this.parentNode?.children ?? []; return l[l.indexOf(this) - 1] ?? null; }
	getAttribute(k) { return this.attrs.has(k) ? this.attrs.get(k) : null; }
	setAttribute(k, v) { this.attrs.set(k, String(v)); }
	removeAttribute(k) { this.attrs.delete(k); }
	hasAttribute(k) { return this.attrs.has(k); }
	get id() { return this.getAttribute("id") ?? ""; }
	set id(v) { this.setAttribute("id", v); }
	get className() { return this.getAttribute("class") ?? ""; }
	set className(v) { this.setAttribute("class", v); }
	get classList() { return new ClassList(this); }
	get textContent() { return this.childNodes.map((c) => c.textContent).join(""); }
	set textContent(v) { this.replaceChildren(...(v == null || v === "" ? [] : [new Text(String(v))])); }
	get innerText() { return this.textContent; }
	set innerText(v) { this.textContent = v; }
	get text() { return this.textContent; }
	set text(v) { this.textContent = v; }
	get innerHTML() { return this.childNodes.map(serialize).join(""); }
	set innerHTML(v) { this.replaceChildren(); parseInto(this, String(v)); this.reset(); }
	insertAdjacentHTML(_, v) { parseInto(this, String(v)); this.reset(); }
	appendChild(c) { c.parentNode?.removeChild?.(c); c.parentNode = this; this.childNodes.push(c); this.reset(); return c; }
	append(...l) { for (const c of l) this.appendChild(typeof c === "string" ? new Text(c) : c); }
	prepend(...l) { for (const c of l.reverse()) { this.appendChild(c); this.childNodes.unshift(this.childNodes.pop()); } }
	insertBefore(c, at) { this.appendChild(c); if (at) { this.childNodes.pop(); this.childNodes.splice(this.childNodes.indexOf(at), 0, c); } return c; }
	removeChild(c) { this.childNodes = this.childNodes.filter((x) => x !== c); c.parentNode = null; this.reset(); return c; }
	remove() { this.parentNode?.removeChild(this); }
	replaceChildren(...l) { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; this.append(...l); this.reset(); }
	walk() { const o = [], go = (n) => { for (const c of n.childNodes) if (c instanceof Element) { o.push(c); go(c); } }; go(this); return o; }
	querySelectorAll(s) { return select(this, s); }
	querySelector(s) { return select(this, s)[0] ?? null; }
	getElementsByTagName(t) { return this.walk().filter((e) => e.tag === t.toLowerCase()); }
	getElementsByClassName(c) { return this.walk().filter((e) => e.classList.contains(c)); }
	matches(s) { return s.split(",").some((x) => matches(this, x.trim())); }
	closest(s) { for (let e = this; e instanceof Element; e = e.parentNode) if (e.matches(s)) return e; return null; }
	contains(e) { for (; e; e = e.parentNode) if (e === this) return true; return false; }
	// Form controls
	get options() { return this.walk().filter((e) => e.tag === "option"); }
	reset() { for (let e = this; e; e = e.parentNode) if (e.tag === "select") { const o = e.options; if (!o.includes(e.picked) && !(e.picked === null && e.count === o.length)) { const s = o.filter((x) => x.hasAttribute("selected") || x.props.chosen); e.picked = s.at(-1) ?? o[0] ?? null; } e.count = o.length; } }
	get selectedIndex() { return this.options.indexOf(this.picked); }
	set selectedIndex(i) { this.picked = this.options[i] ?? null; this.count = this.options.length; }
	get selectedOptions() { return this.picked ? [this.picked] : []; }
	get selected() { let e = this.parentNode; while (e && e.tag !== "select") e = e.parentNode; return e ? e.picked === this : !!this.props.chosen; }
	set selected(v) { let e = this.parentNode; while (e && e.tag !== "select") e = e.parentNode; if (!e) this.props.chosen = v; else if (v) e.picked = this; else if (e.picked === this) { e.picked = null; e.count = e.options.length; } }
	get value() {
		if (this.tag === "select") return this.picked ? this.picked.value : "";
		if (this.tag === "option") return this.getAttribute("value") ?? this.textContent.trim().replace(/\s+/g, " ");
		return this.props.value ?? this.getAttribute("value") ?? (this.type === "checkbox" ? "on" : "");
	}
	set value(v) {
		if (this.tag === "select") { this.picked = this.options.find((o) => o.value === String(v)) ?? null; this.count = this.options.length; }
		else if (this.tag === "option") this.setAttribute("value", v);
		else this.props.value = v == null ? "" : String(v);
	}
	get checked() { return this.props.checked ?? this.hasAttribute("checked"); }
	set checked(v) { this.props.checked = !!v; }
	get type() { return this.getAttribute("type") ?? (this.tag === "select" ? "select-one" : "text"); }
	get disabled() { return this.props.disabled ?? this.hasAttribute("disabled"); }
	set disabled(v) { this.props.disabled = !!v; }
	get href() { return this.hasAttribute("href") ? new URL(this.getAttribute("href"), this.page.url).href : ""; }
	set href(v) { this.setAttribute("href", v); }
	get title() { return this.getAttribute("title") ?? ""; }
	set title(v) { this.setAttribute("title", v); }
	// Events
	addEventListener(t, f) { this.handlers.push([t, f]); }
	removeEventListener(t, f) { this.handlers = this.handlers.filter((h) => h[0] !== t || h[1] !== f); }
	dispatchEvent(ev) { fire(this, ev.type, ev); return !ev.defaultPrevented; }
	click() { fire(this, "click"); }
	submit() {}
	focus() {}
	blur() {}
	scrollIntoView() { this.page.scrolled = this.id; }
	getBoundingClientRect() { return { top: 0, left: 0, width: 1, height: 1, bottom: 1, right: 1 }; }
}

function serialize(n) {
	if (n instanceof Text) return encode(n.data);
	const a = [...n.attrs].map(([k, v]) => ` ${k}="${encode(v)}"`).join("");
	return `<${n.tag}${a}>` + (VOID.has(n.tag) ? "" : n.innerHTML + `</${n.tag}>`);
}

function parseInto(root, html) {
	const page = root.page;
	let at = root;
	const re = /<!--[\s\S]*?(?:-->|$)|<[!?][^>]*>|<\/([a-z][^\s>]*)[^>]*>|<([a-z][^\s/>]*)((?:[^>"']|"[^"]*"|'[^']*')*)>/gi;
	let pos = 0;
	const text = (t) => { if (t) { const x = new Text(decode(t)); x.parentNode = at; at.childNodes.push(x); } };
	for (let m; (m = re.exec(html));) {
		text(html.slice(pos, m.index));
		pos = re.lastIndex;
		if (m[1]) {
			let a = at;
			while (a !== root && a.tag !== m[1].toLowerCase()) a = a.parentNode;
			if (a !== root) at = a.parentNode;
		} else if (m[2]) {
			const tag = m[2].toLowerCase();
			if (ENDS[tag]?.includes(at.tag) && at !== root) { const k = at.tag; at = at.parentNode; if (tag === "tr" && k !== "tr" && at.tag === "tr" && at !== root) at = at.parentNode; }
			const e = new Element(page, tag);
			for (const x of m[3].matchAll(/([^\s=/"']+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"']+))?/g)) {
				const v = x[2] === undefined ? "" : /^["']/.test(x[2]) ? x[2].slice(1, -1) : x[2];
				if (!e.attrs.has(x[1].toLowerCase())) e.attrs.set(x[1].toLowerCase(), decode(v));
			}
			e.parentNode = at;
			at.childNodes.push(e);
			if (RAW.has(tag)) {
				const end = new RegExp(`</${tag}\\s*>`, "gi");
				end.lastIndex = pos;
				const q = end.exec(html);
				const t = new Text(tag === "script" || tag === "style" ? html.slice(pos, q?.index) : decode(html.slice(pos, q?.index)));
				t.parentNode = e;
				e.childNodes.push(t);
				pos = re.lastIndex = q ? end.lastIndex : html.length;
			} else if (!VOID.has(tag)) at = e;
		}
	}
	text(html.slice(pos));
}

// Selectors: compound parts with tag, #id, .class, [attribute=value] and a few pseudo-classes, joined by blanks or >.
const compiled = new Map();
function compile(s) {
	if (compiled.has(s)) return compiled.get(s);
	const re = /^(\*|[a-z][\w-]*)|#((?:\\.|[\w-])+)|\.((?:\\.|[\w-])+)|\[([\w-]+)(?:([*^$~]?)=["']?([^\]"']*)["']?)?\]|:([\w-]+)(?:\(([^)]*)\))?/giy;
	const un = (x) => x.replace(/\\(.)/g, "$1");
	const l = [];
	for (let pos = 0; pos < s.length;) {
		re.lastIndex = pos;
		const m = re.exec(s);
		if (!m) throw new SyntaxError("unrecognized expression: " + s);
		pos = re.lastIndex;
		if (m[1]) { const t = m[1].toLowerCase(); if (t !== "*") l.push((e) => e.tag === t); }
		else if (m[2]) { const i = un(m[2]); l.push((e) => e.attrs.get("id") === i); }
		else if (m[3]) { const c = un(m[3]); l.push((e) => e.attrs.has("class") && e.classList.contains(c)); }
		else if (m[4]) {
			l.push((e) => {
				const v = e.getAttribute(m[4]);
				return v !== null && (m[6] === undefined || { "": v === m[6], "*": v.includes(m[6]), "^": v.startsWith(m[6]), $: v.endsWith(m[6]), "~": v.split(/\s+/).includes(m[6]) }[m[5]]);
			});
		} else {
			const sib = (e) => e.parentNode?.children ?? [];
			l.push({ checked: (e) => e.checked, selected: (e) => e.selected, "first-child": (e) => sib(e)[0] === e, "last-child": (e) => sib(e).at(-1) === e, visible: (e) => e.style.display !== "none", hidden: (e) => e.style.display === "none",
				not: (e) => !e.matches(m[8]), disabled: (e) => e.disabled, enabled: (e) => !e.disabled, "first-of-type": (e) => sib(e).find((x) => x.tag === e.tag) === e, input: (e) => ["input", "select", "textarea", "button"].includes(e.tag) }[m[7]] ?? (() => true));
		}
	}
	compiled.set(s, l);
	return l;
}
const compound = (e, s) => compile(s).every((f) => f(e));
const split = new Map();
function matches(e, s) {
	if (!split.has(s)) split.set(s, s.trim().replace(/\s*>\s*/g, " > ").split(/\s+/));
	const parts = split.get(s);
	const go = (e, i) => {
		if (!(e instanceof Element) || !compound(e, parts[i])) return false;
		if (i === 0) return true;
		if (parts[i - 1] === ">") return go(e.parentNode, i - 2);
		for (let p = e.parentNode; p instanceof Element; p = p.parentNode) if (go(p, i - 1)) return true;
		return false;
	};
	return go(e, parts.length - 1);
}
function select(root, s) {
	const alts = String(s).split(",").map((x) => x.trim()).filter(Boolean);
	const o = [];
	const walk = (n) => { for (const c of n.childNodes) if (c instanceof Element) { if (alts.some((a) => matches(c, a))) o.push(c); walk(c); } };
	walk(root);
	return o;
}

// Runs the handlers of an element and of those around it.
function fire(target, type, given, extra = []) {
	const page = target.page;
	const ev = Object.assign(given ?? {}, { type, target, currentTarget: target, defaultPrevented: false });
	let stop = false;
	ev.preventDefault ??= () => { ev.defaultPrevented = true; };
	ev.stopPropagation ??= () => { stop = true; };
	ev.stopImmediatePropagation ??= ev.stopPropagation;
	for (let e = target; e && !stop; e = e.parentNode ?? (e instanceof Element && e.tag !== "#document" ? null : null)) {
		for (const [t, f, sel] of [...(e.handlers ?? [])]) {
			if (t !== type) continue;
			let on = e;
			if (sel) { on = target.closest(sel); if (!on || !e.contains(on)) continue; }
			ev.currentTarget = on;
			page.guard(() => { if (f?.call(on, ev, ...extra) === false) ev.preventDefault(); });
		}
		const own = e["on" + type];
		if (typeof own === "function") page.guard(() => own.call(e, ev));
	}
}

const CACHE = new Map();
const GLOBAL = {}, CONTEXT = vm.createContext(GLOBAL);

class Page {
	constructor({ html, url, storage, scripts, dark }) {
		Object.assign(this, { url, dark: !!dark, storage: new Map(storage), scripts, pending: [], log: [], errors: [], nav: null, alerts: [], scrolled: null, timers: [] });
		this.document = new Element(this, "#document");
		parseInto(this.document, html);
		for (const s of this.document.getElementsByTagName("select")) s.reset();
		this.setup();
	}
	guard(f) { try { return f(); } catch (e) { this.errors.push(String(e)); } }
	navigate(v) { this.nav = new URL(String(v), this.url).href; }
	setup() {
		const page = this, doc = this.document;
		const location = {
			get href() { return page.url; }, set href(v) { page.navigate(v); }, toString: () => page.url,
			assign: (v) => page.navigate(v), replace: (v) => page.navigate(v), reload: () => page.navigate(page.url),
		};
		for (const k of ["hash", "host", "hostname", "origin", "pathname", "port", "protocol"]) Object.defineProperty(location, k, { enumerable: true, get: () => new URL(page.url)[k] });
		Object.defineProperty(location, "search", { get: () => new URL(page.url).search, set: (v) => { const u = new URL(page.url); u.search = v; page.navigate(u); } });
		Object.assign(doc, {
			getElementById: (i) => doc.walk().find((e) => e.id === i) ?? null,
			createElement: (t) => new Element(page, t.toLowerCase()), createTextNode: (t) => new Text(String(t)),
			readyState: "complete", cookie: "", location,
		});
		Object.defineProperties(doc, {
			body: { get: () => doc.querySelector("body") ?? doc }, head: { get: () => doc.querySelector("head") ?? doc }, documentElement: { get: () => doc.querySelector("html") ?? doc },
		});
		const storage = { getItem: (k) => page.storage.get(String(k)) ?? null, setItem: (k, v) => { page.storage.set(String(k), String(v)); }, removeItem: (k) => { page.storage.delete(String(k)); }, clear: () => page.storage.clear() };
		// One global object for all visits, emptied before each.
		for (const k of Reflect.ownKeys(GLOBAL)) delete GLOBAL[k];
		const w = Object.assign(GLOBAL, {
			document: doc, localStorage: storage, sessionStorage: { getItem: () => null, setItem() {}, removeItem() {} }, URL, URLSearchParams, TextEncoder, TextDecoder, navigator: { userAgent: "" },
			alert: (m) => { page.alerts.push(String(m)); }, confirm: () => true, prompt: () => null, matchMedia: (q) => ({ media: q, matches: /prefers-color-scheme:\s*dark/.test(q) === page.dark && /prefers-color-scheme/.test(q), addEventListener() {}, addListener() {}, removeEventListener() {} }),
			setTimeout: (f, ms, ...a) => page.timers.push(() => f(...a)), clearTimeout: (i) => { page.timers[i - 1] = () => {}; }, setInterval: () => 0, clearInterval() {}, requestAnimationFrame: (f) => page.timers.push(() => f(0)), queueMicrotask,
			history: { pushState() {}, replaceState() {} }, getComputedStyle: (e) => e.style, open: (v) => page.navigate(v), scrollTo() {},
			Option: function (text, value, ds, s) { const o = new Element(page, "option"); o.textContent = text ?? ""; if (value !== undefined) o.setAttribute("value", value); if (ds) o.setAttribute("selected", ""); if (s) o.props.chosen = true; return o; },
			Event: class { constructor(t, o) { this.type = t; Object.assign(this, o); } }, CustomEvent: class { constructor(t, o) { this.type = t; Object.assign(this, o); } },
			addEventListener: (t, f) => doc.addEventListener(t, f), removeEventListener() {}, dispatchEvent() {}, innerWidth: 1000, innerHeight: 1000,
			console: Object.fromEntries(["log", "debug", "info", "warn", "error", "trace", "table"].map((k) => [k, () => {}])),
			fetch: (u) => new Promise((ok, no) => page.request(u, (d) => ok({ ok: true, status: 200, json: async () => d, text: async () => JSON.stringify(d) }), (gone) => gone ? no(new TypeError("Failed to fetch")) : ok({ ok: false, status: 500, json: async () => { throw new SyntaxError("no JSON"); }, text: async () => "error" }))),
			HTMLElement: Element, Element, Node: Element,
		});
		w.window = w.self = w.globalThis = w.top = w;
		Object.defineProperty(w, "location", { configurable: true, get: () => location, set: (v) => page.navigate(v) });
		w.$ = w.jQuery = jquery(this, w);
		w.DataTable = w.$.fn.dataTable;
		this.window = w;
		this.context = CONTEXT;
	}
	request(url, done, fail) {
		this.pending.push({ url: new URL(String(url), this.url).href, done, fail, id: this.log.length });
		this.log.push(this.pending.at(-1).url);
	}
	async run() {
		const mods = new Map();
		const load = (u) => {
			if (mods.has(u)) return mods.get(u);
			if (!(u in this.scripts)) throw new Error("missing script " + u);
			const m = new vm.SourceTextModule(this.scripts[u], { context: this.context, identifier: u, cachedData: CACHE.get(this.scripts[u]) });
			if (!CACHE.has(this.scripts[u])) CACHE.set(this.scripts[u], m.createCachedData());
			mods.set(u, m);
			return m;
		};
		for (const s of this.document.getElementsByTagName("script")) {
			const src = s.getAttribute("src");
			if (src && !src.startsWith("/") && !src.startsWith("static")) continue;
			try {
				if (src && s.type === "module") {
					const m = load(new URL(src, this.url).pathname);
					if (m.status === "unlinked") await m.link((spec, from) => load(new URL(spec, "http://x" + from.identifier).pathname));
					await m.evaluate();
				} else if (src) {
					const p = new URL(src, this.url).pathname;
					if (!(p in this.scripts)) throw new Error("missing script " + p);
					vm.runInContext(this.scripts[p], this.context);
				} else if (s.textContent.trim()) vm.runInContext(s.textContent, this.context);
			} catch (e) { this.errors.push(String(e)); }
		}
		for (const t of ["DOMContentLoaded", "load"]) fire(this.document, t);
		await this.settle();
	}
	async settle() {
		for (let i = 0; i < 50; i++) {
			await new Promise((r) => setImmediate(r));
			if (!this.timers.some(Boolean)) break;
			const t = this.timers.map((f) => f);
			this.timers.fill(null);
			for (const f of t) if (f) this.guard(f);
		}
	}
	find(sel, n = 0) { const l = this.document.querySelectorAll(sel); if (!l[n]) throw new Error(`no ${sel} ${n}`); return l[n]; }
	async event(ev) {
		const [kind, ...a] = ev;
		if (kind === "pick") {
			// What people choose among what is offered, and nothing else.
			const e = this.find(a[0], a[1]);
			e.value = a[2];
			if (e.picked === null) throw new Error("not offered: " + a[2]);
			fire(e, "input"); fire(e, "change");
		} else if (kind === "type") { const e = this.find(a[0], a[1]); e.value = a[2]; fire(e, "input"); fire(e, "change"); }
		else if (kind === "check") { const e = this.find(a[0], a[1]); e.checked = a[2]; fire(e, "click"); fire(e, "input"); fire(e, "change"); }
		else if (kind === "click") fire(this.find(a[0], a[1]), "click");
		else if (kind === "dblclick") { const e = this.find(a[0], a[1]); fire(e, "click"); fire(e, "click"); fire(e, "dblclick"); }
		else if (kind === "reply") {
			const p = this.pending.splice(a[0], 1)[0];
			if (a[1] === "fail") this.guard(() => p.fail(false)); else if (a[1] === "gone") this.guard(() => p.fail(true)); else this.guard(() => p.done(JSON.parse(JSON.stringify(a[1]))));
		} else throw new Error("unknown event " + kind);
		await this.settle();
	}
	snapshot(want) {
		const o = { selected: this.selected ?? [], scrolled: this.scrolled ?? null, errors: this.errors, nav: this.nav, alerts: this.alerts.length, pending: this.pending.map((p) => p.url), requests: this.log, storage: [...this.storage], show: {} };
		for (const s of want) o.show[s] = this.document.querySelectorAll(s).map((e) => ({
			text: e.textContent, value: e.tag === "select" ? (e.picked ? e.picked.value : null) : e.value, classes: e.classList.all, checked: e.checked, display: e.style.display ?? "", shown: !!e.style.shown, opacity: e.style.opacity ?? "", tag: e.tag, inner: e.children.length,
			title: e.title, color: e.style.color ?? "", id: e.id, options: e.tag === "select" ? e.options.map((x) => [x.value, x.textContent]) : [],
			kids: e.tag === "tr" ? e.children.map((c) => [c.textContent, c.children.length]) : [],
		}));
		return o;
	}
}

function jquery(page, w) {
	const doc = page.document;
	const camel = (s) => s.replace(/-(.)/g, (_, c) => c.toUpperCase());
	const fn = {};
	class Q {
		constructor(l) { this.length = 0; for (const e of new Set(l)) this[this.length++] = e; }
		*[Symbol.iterator]() { for (let i = 0; i < this.length; i++) yield this[i]; }
	}
	const wrap = (l) => {
		const q = new Q(l);
		return new Proxy(q, { get: (t, k) => k in t ? t[k] : k in fn ? fn[k] : k in methods ? methods[k] : typeof k === "string" && k !== "then" && !/^\d+$/.test(k) ? () => wrap(l) : undefined });
	};
	const els = (x) => x == null ? [] : x instanceof Element ? [x] : x === w || x === w.location ? [x === w ? doc : { getAttribute: (k) => x[k], attrs: new Map(), classList: { contains: () => false } }] : typeof x === "string" ? parse(x) : x[Symbol.iterator] ? [...x].flatMap(els) : x instanceof Text ? [x] : [];
	const parse = (s) => {
		if (!s.trim().startsWith("<")) return select(doc, s);
		const t = new Element(page, "div");
		parseInto(t, s.trim());
		for (const c of t.childNodes) c.parentNode = null;
		return t.childNodes;
	};
	const each = (q, f) => { [...q].forEach(f); return q; };
	const val = (e) => e.tag === "select" ? (e.picked ? e.picked.value : null) : e.value;
	const methods = {
		get(i) { return i === undefined ? [...this] : this[i < 0 ? this.length + i : i]; }, toArray() { return [...this]; },
		each(f) { for (let i = 0; i < this.length; i++) if (f.call(this[i], i, this[i]) === false) break; return this; },
		map(f) { return wrap([...this].map((e, i) => f.call(e, i, e)).filter((x) => x != null)); },
		ready(f) { page.guard(() => f.call(doc, w.$)); return this; },
		on(t, a, b) { if (typeof t === "object") { for (const [k, f] of Object.entries(t)) this.on(k, a, f); return this; } const [sel, f] = typeof a === "string" ? [a, b] : [null, b ?? a]; return each(this, (e) => t.split(" ").forEach((k) => e.handlers.push([k.split(".")[0], f, sel]))); },
		off(t) { return each(this, (e) => { e.handlers = e.handlers.filter((h) => h[0] !== t); }); },
		one(t, f) { return this.on(t, f); },
		trigger(t, extra) { return each(this, (e) => fire(e, typeof t === "string" ? t.split(".")[0] : t.type, undefined, extra ?? [])); },
		triggerHandler(t) { return this.trigger(t); },
		val(v) {
			if (v === undefined && !arguments.length) { const e = this[0]; return e ? val(e) : undefined; }
			return each(this, (e) => { let x = typeof v === "function" ? v.call(e, 0, val(e)) : v; x = x == null ? "" : String(x); if (e.tag === "select") { e.picked = e.options.find((o) => o.value === x) ?? null; e.count = e.options.length; } else e.value = x; });
		},
		text(v) { return arguments.length ? each(this, (e) => { e.textContent = v; }) : [...this].map((e) => e.textContent).join(""); },
		html(v) { return arguments.length ? each(this, (e) => { e.innerHTML = v; }) : this[0]?.innerHTML; },
		attr(k, v) { if (typeof k === "object") { for (const [a, b] of Object.entries(k)) this.attr(a, b); return this; } return arguments.length > 1 ? each(this, (e) => v == null ? e.removeAttribute(k) : e.setAttribute(k, v)) : this[0]?.getAttribute(k) ?? undefined; },
		removeAttr(k) { return each(this, (e) => e.removeAttribute(k)); },
		prop(k, v) { return arguments.length > 1 ? each(this, (e) => { e[k] = v; }) : this[0]?.[k]; },
		data(k, v) { return arguments.length > 1 ? each(this, (e) => { (e.props.data ??= {})[k] = v; }) : this[0]?.props.data?.[k] ?? this[0]?.getAttribute("data-" + k) ?? undefined; },
		css(k, v) { if (typeof k === "object") { for (const [a, b] of Object.entries(k)) this.css(a, b); return this; } return arguments.length > 1 ? each(this, (e) => { e.style[camel(k)] = String(v); }) : this[0]?.style[camel(k)] ?? ""; },
		addClass(c) { return each(this, (e) => e.classList.add(...c.split(/\s+/))); }, removeClass(c) { return each(this, (e) => c === undefined ? e.removeAttribute("class") : e.classList.remove(...c.split(/\s+/))); },
		toggleClass(c, f) { return each(this, (e) => e.classList.toggle(c, f)); }, hasClass(c) { return [...this].some((e) => e.classList.contains(c)); },
		is(s) { return [...this].some((e) => typeof s === "string" ? e.matches(s) : els(s).includes(e)); },
		not(s) { return wrap([...this].filter((e) => typeof s === "string" ? !e.matches(s) : !els(s).includes(e))); },
		filter(s) { return wrap([...this].filter((e, i) => typeof s === "function" ? s.call(e, i, e) : e.matches(s))); }, has(s) { return wrap([...this].filter((e) => e.querySelector(s))); },
		find(s) { return wrap([...this].flatMap((e) => e.querySelectorAll(s))); }, parent() { return wrap([...this].map((e) => e.parentNode).filter(Boolean)); }, closest(s) { return wrap([...this].map((e) => e.closest(s)).filter(Boolean)); },
		parents(s) { return wrap([...this].flatMap((e) => { const o = []; for (e = e.parentNode; e instanceof Element; e = e.parentNode) if (!s || e.matches(s)) o.push(e); return o; })); },
		children(s) { return wrap([...this].flatMap((e) => e.children).filter((e) => !s || e.matches(s))); }, siblings(s) { return wrap([...this].flatMap((e) => e.parentNode.children.filter((x) => x !== e && (!s || x.matches(s))))); },
		next(s) { return wrap([...this].map((e) => e.nextElementSibling).filter((e) => e && (!s || e.matches(s)))); }, prev(s) { return wrap([...this].map((e) => e.previousElementSibling).filter((e) => e && (!s || e.matches(s)))); },
		first() { return wrap([...this].slice(0, 1)); }, last() { return wrap([...this].slice(-1)); }, eq(i) { return wrap([...this].slice(i, i + 1 || undefined)); }, slice(a, b) { return wrap([...this].slice(a, b)); },
		index(x) { return x === undefined ? this[0]?.parentNode.children.indexOf(this[0]) ?? -1 : [...this].indexOf(els(x)[0]); }, add(x) { return wrap([...this, ...els(x)]); },
		empty() { return each(this, (e) => e.replaceChildren()); }, remove() { return each(this, (e) => e.remove()); }, detach() { return each(this, (e) => e.remove()); },
		append(...l) { return each(this, (e) => l.flat().forEach((x) => (typeof x === "string" && !x.trim().startsWith("<") ? [new Text(decode(x))] : els(x)).forEach((c) => e.appendChild(c)))); },
		prepend(...l) { return each(this, (e) => l.flat().forEach((x) => els(x).forEach((c) => e.prepend(c)))); }, appendTo(x) { wrap(els(x)).append(this); return this; },
		show() { return each(this, (e) => { e.style.display = ""; e.style.shown = true; }); }, hide() { return each(this, (e) => { e.style.display = "none"; }); }, toggle(f) { return f ?? this[0]?.style.display === "none" ? this.show() : this.hide(); },
		animate(props, o, c) { return each(this, (e) => { Object.assign(e.style, Object.fromEntries(Object.entries(props).map(([k, v]) => [k, String(v)]))); if (typeof o === "object") { o.step?.call(e, 1, {}); o.step?.call(e, 0, {}); o.complete?.call(e); o.done?.call(e); } const f = typeof o === "function" ? o : c; if (typeof f === "function") f.call(e); }); },
		DataTable(o) { return dataTable(page, w, this[0], o ?? {}, wrap); }, dataTable(o) { return dataTable(page, w, this[0], o ?? {}, wrap); },
		serialize() { return ""; }, offset() { return { top: 0, left: 0 }; }, width() { return 1; }, height() { return 1; },
	};
	for (const k of ["fadeIn", "slideDown"]) methods[k] = methods.show;
	for (const k of ["fadeOut", "slideUp"]) methods[k] = methods.hide;
	for (const k of ["click", "change", "dblclick", "submit", "input", "keyup", "keydown", "focus", "blur", "mouseenter", "hover"]) methods[k] = function (f) { return f === undefined ? this.trigger(k) : this.on(k, f); };
	const $ = function (x) { if (typeof x === "function") { page.guard(() => x.call(doc, $)); return wrap([doc]); } return wrap(els(x)); };
	$.fn = $.prototype = fn;
	const text = () => ({ display: (d) => typeof d === "string" ? encode(d) : d, filter: (d) => typeof d === "string" ? encode(d) : d });
	fn.dataTable = Object.assign(() => {}, { render: { text }, ext: { errMode: "", type: { order: {} }, search: [] }, util: { escapeRegex: (s) => s }, Api: class {}, moment() {} });
	$.each = (l, f) => { if (Array.isArray(l)) l.every((v, i) => f.call(v, i, v) !== false); else Object.entries(l).every(([k, v]) => f.call(v, k, v) !== false); return l; };
	$.map = (l, f) => (Array.isArray(l) ? l : Object.values(l)).map((v, i) => f(v, i)).filter((x) => x != null);
	$.extend = (...a) => Object.assign(...(a[0] === true ? a.slice(1) : a)); $.trim = (s) => String(s ?? "").trim(); $.inArray = (x, l) => l.indexOf(x); $.isArray = Array.isArray; $.noop = () => {}; $.escapeSelector = (s) => s.replace(/[^\w-]/g, "\\$&");
	$.param = (o) => new URLSearchParams(o).toString();
	$.when = (...a) => a[0];
	// jqXHR
	const ajax = (url, done, method) => {
		const cbs = { done: [], fail: [], always: [] };
		let state = "pending", got;
		const x = {};
		const call = (f, ...a) => page.guard(() => f(...a));
		const add = (k, when) => (...fs) => { for (const f of fs.flat()) if (typeof f === "function") { if (state === "pending") cbs[k].push(f); else if (when(state)) call(f, ...got); } return x; };
		Object.assign(x, { done: add("done", (s) => s === "ok"), fail: add("fail", (s) => s === "no"), always: add("always", () => true), abort: () => { page.pending = page.pending.filter((p) => p.x !== x); settle("no", [x, "abort", ""]); }, state: () => state, promise: () => x,
			get readyState() { return state === "pending" ? 1 : 4; }, status: 0 });
		const promise = new Promise((ok, no) => { x.done((d) => ok(d)); x.fail((e) => no(e)); });
		promise.catch(() => {});
		x.then = (a, b) => promise.then(a, b); x.catch = (b) => promise.catch(b); x.finally = (f) => promise.finally(f);
		const settle = (s, a) => { if (state !== "pending") return; state = s; got = a; if (s === "ok") for (const f of cbs.done) call(f, ...a); else for (const f of cbs.fail) call(f, ...a); for (const f of cbs.always) call(f, ...a); };
		if (done) x.done(done);
		page.request(url, (d) => { x.status = 200; x.responseJSON = d; settle("ok", [d, "success", x]); }, () => { x.status = 500; settle("no", [x, "error", "Internal Server Error"]); });
		page.pending.at(-1).x = x;
		return x;
	};
	const query = (u, d) => d && typeof d === "object" ? u + (u.includes("?") ? "&" : "?") + new URLSearchParams(d) : d && typeof d === "string" ? u + (u.includes("?") ? "&" : "?") + d : u;
	$.getJSON = $.get = (u, d, f) => typeof d === "function" ? ajax(u, d) : ajax(query(u, d), f);
	$.ajax = (u, o) => { if (typeof u === "object") { o = u; u = o.url; } o ??= {}; const x = ajax(query(u, o.data), o.success); if (o.error) x.fail(o.error); if (o.complete) x.always(o.complete); return x; };
	$.ajaxSetup = () => {};
	return $;
}

// Rows are made from markup unless their column is rendered in another way.
function dataTable(page, w, table, o, wrap) {
	const find = (t) => { let b = table.querySelector(t); if (!b) { b = new Element(page, t); table.appendChild(b); } return b; };
	const body = table ? find("tbody") : new Element(page, "tbody");
	const render = (i, d) => {
		for (const c of o.columnDefs ?? []) {
			const t = [c.targets].flat();
			if (c.render && (t.includes("_all") || t.includes(i) || t.includes(i - (table?.querySelectorAll("th").length ?? 0)))) return use(c.render, d);
		}
		return o.columns?.[i]?.render ? use(o.columns[i].render, d) : d;
	};
	const use = (r, d) => { const f = typeof r === "function" ? r : r.display ?? r._; return f(d, "display", null, {}); };
	const keys = () => o.columns?.map((c, i) => c.data ?? i);
	const make = (d) => {
		if (d instanceof Element) { body.appendChild(d); return d; }
		const tr = new Element(page, "tr");
		const l = Array.isArray(d) ? d : (keys() ?? Object.keys(d)).map((k) => typeof k === "function" ? k(d) : String(k).split(".").reduce((x, y) => x?.[y], d));
		l.forEach((x, i) => { const td = new Element(page, "td"); td.innerHTML = String(render(i, x) ?? ""); tr.appendChild(td); });
		if (o.rowId && d[o.rowId]) tr.id = d[o.rowId];
		body.appendChild(tr);
		o.createdRow?.(tr, d, body.children.length - 1, tr.children);
		o.rowCallback?.(tr, d);
		return tr;
	};
	const api = (trs) => {
		const a = { draw: () => a, node: () => trs[0] ?? null, nodes: () => wrap(trs), select: () => { page.selected = trs.map((t) => t.id); return a; }, deselect: () => a, remove: () => { trs.forEach((t) => t.remove()); return a; }, data: () => ({}), any: () => trs.length > 0, count: () => trs.length, every: (f) => { trs.forEach((t) => f.call(api([t]))); return a; }, length: trs.length, to$: () => wrap(trs), index: () => body.children.indexOf(trs[0]), invalidate: () => a };
		return a;
	};
	const rows = (sel) => api(sel === undefined ? body.children : typeof sel === "number" ? [body.children[sel]].filter(Boolean) : typeof sel === "string" && sel[0] === "#" ? body.children.filter((t) => t.id === sel.slice(1)) : typeof sel === "string" ? body.children.filter((t) => t.matches(sel)) : sel instanceof Element ? [sel] : body.children);
	// The rows that are there are sorted by these columns, or the first one.
	let order = o.ordering === false ? [] : o.order ?? o.aaSorting ?? [[0, "asc"]];
	const sort = () => {
		const l = (typeof order[0] === "number" ? [order] : order).map(([i, d]) => [i, d === "desc" ? -1 : 1]);
		const key = (tr, i) => { const td = tr.children[i], k = td?.getAttribute("data-order") ?? td?.getAttribute("data-sort") ?? td?.textContent.trim() ?? ""; return k !== "" && !isNaN(k) ? Number(k) : k.toLowerCase(); };
		const trs = [...body.children];
		trs.sort((a, b) => { for (const [i, d] of l) { const x = key(a, i), y = key(b, i); const c = typeof x === typeof y ? (x < y ? -1 : x > y ? 1 : 0) : typeof x === "number" ? -1 : 1; if (c) return d * c; } return 0; });
		body.replaceChildren(); for (const r of trs) body.appendChild(r);
	};
	const still = !!body.children.length;
	if (still) sort();
	const t = { order: (...x) => { if (!x.length) return order; order = x.length === 1 ? x[0] : x; return t; }, row: Object.assign((x) => rows(x), { add: (d) => api([make(d.jquery || d[0] instanceof Element ? d[0] : d)]) }), rows: Object.assign((x) => rows(x), { add: (l) => api([...l].map(make)) }), draw: () => { if (still) sort(); return t; }, clear: () => { body.replaceChildren(); return t; } };
	for (const d of o.data ?? []) make(d);
	const base = t;
	return new Proxy(base, { get: (x, k) => k in x ? x[k] : typeof k === "string" && k !== "then" ? Object.assign(() => base, { adjust: () => base }) : undefined });
}

// One visit: the page is opened, the events take place, and this is what then is there.
async function visit(v) {
	let page = new Page(v);
	await page.run();
	const seen = [];
	for (const e of v.events) {
		if (v.all) seen.push(page.snapshot(v.want));
		if (e[0] === "reload") {
			page = new Page({ ...v, storage: [...page.storage] });
			await page.run();
		} else await page.event(e);
	}
	seen.push(page.snapshot(v.want));
	return seen;
}

process.stdout.on("error", () => process.exit());
const known = {};
for await (const line of readline.createInterface({ input: process.stdin })) {
	const v = JSON.parse(line);
	if (v.define) { known[v.define] = v.value; continue; }
	let out;
	try { out = await visit({ ...v, html: known[v.html] ?? v.html, scripts: known[v.scripts] ?? v.scripts }); } catch (e) { out = { broken: String(e?.stack ?? e).slice(0, 2000) }; }
	process.stdout.write(JSON.stringify(out) + "\n");
}
