// A small document for puck_liveview/client/index.js: enough of the DOM to see what the page ends up as.
"use strict";
const fs = require("fs"), path = require("path"), vm = require("vm");
class Nd {
    constructor(type) { this.nodeType = type; this.childNodes = []; this.parentNode = null; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get parentElement() { return this.parentNode; }
    get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
    get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    remove() { if (this.parentNode) { const p = this.parentNode; p.childNodes.splice(p.childNodes.indexOf(this), 1); this.parentNode = null; } }
    appendChild(n) { return this.insertBefore(n, null); }
    insertBefore(n, ref) {
        if (!(n instanceof Nd)) throw new TypeError("not a node");
        n.remove();
        const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
        if (i < 0) throw new Error("NotFoundError");
        this.childNodes.splice(i, 0, n); n.parentNode = this; return n;
    }
    removeChild(n) { if (n.parentNode !== this) throw new Error("NotFoundError"); n.remove(); return n; }
    replaceChild(n, old) {
        if (old.parentNode !== this) throw new Error("NotFoundError");
        n.remove(); const i = this.childNodes.indexOf(old);
        this.childNodes[i] = n; n.parentNode = this; old.parentNode = null; return old;
    }
    get textContent() { return this.nodeType === 3 ? this.data : this.childNodes.map(c => c.textContent).join(""); }
    set textContent(v) { if (this.nodeType === 3) { this.data = String(v); return; } [...this.childNodes].forEach(c => c.remove()); if (v !== "") this.appendChild(new Tx(v)); }
    get nodeValue() { return this.nodeType === 3 ? this.data : null; }
    set nodeValue(v) { if (this.nodeType === 3) this.data = String(v); }
}
class Tx extends Nd { constructor(d) { super(3); this.data = String(d); } get nodeName() { return "#text"; } cloneNode() { return new Tx(this.data); } }
class Elm extends Nd {
    constructor(name) {
        super(1);
        if (!/^[A-Za-z][^\0\t\n\f\r />]*$/.test(String(name))) throw new Error("InvalidCharacterError");
        this.localName = String(name).toLowerCase(); this._at = []; this._ls = []; this.value = "";
    }
    get nodeName() { return this.localName.toUpperCase(); }
    get tagName() { return this.nodeName; }
    get children() { return this.childNodes.filter(c => c.nodeType === 1); }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { return this.children[this.children.length - 1] || null; }
    get childElementCount() { return this.children.length; }
    get attributes() {
        const l = this._at.map(a => ({ get name() { return a[0]; }, get nodeName() { return a[0]; }, get value() { return a[1]; }, get nodeValue() { return a[1]; } }));
        l.item = i => l[i] === undefined ? null : l[i]; return l;
    }
    getAttributeNames() { return this._at.map(a => a[0]); }
    hasAttribute(n) { return this.getAttribute(n) !== null; }
    getAttribute(n) { const a = this._at.find(a => a[0] === String(n).toLowerCase()); return a ? a[1] : null; }
    setAttribute(n, v) {
        n = String(n).toLowerCase();
        if (n === "" || /[\s=\/>\0]/.test(n)) throw new Error("InvalidCharacterError");
        const a = this._at.find(a => a[0] === n); if (a) a[1] = String(v); else this._at.push([n, String(v)]);
    }
    removeAttribute(n) { this._at = this._at.filter(a => a[0] !== String(n).toLowerCase()); }
    get id() { return this.getAttribute("id") || ""; }
    set id(v) { this.setAttribute("id", v); }
    get className() { return this.getAttribute("class") || ""; }
    set className(v) { this.setAttribute("class", v); }
    append(...ns) { ns.forEach(n => this.appendChild(n instanceof Nd ? n : new Tx(n))); }
    prepend(...ns) { const f = this.firstChild; ns.forEach(n => this.insertBefore(n instanceof Nd ? n : new Tx(n), f)); }
    before(...ns) { ns.forEach(n => this.parentNode.insertBefore(n instanceof Nd ? n : new Tx(n), this)); }
    after(...ns) { const f = this.nextSibling; ns.forEach(n => this.parentNode.insertBefore(n instanceof Nd ? n : new Tx(n), f)); }
    replaceWith(...ns) { const p = this.parentNode, f = this.nextSibling; this.remove(); ns.forEach(n => p.insertBefore(n instanceof Nd ? n : new Tx(n), f)); }
    replaceChildren(...ns) { [...this.childNodes].forEach(c => c.remove()); this.append(...ns); }
    insertAdjacentElement(w, n) { const k = { beforebegin: "before", afterbegin: "prepend", beforeend: "append", afterend: "after" }[w]; this[k](n); return n; }
    addEventListener(t, f) { if (!this._ls.some(l => l[0] === t && l[1] === f)) this._ls.push([t, f]); }
    removeEventListener(t, f) { this._ls = this._ls.filter(l => !(l[0] === t && l[1] === f)); }
    cloneNode(deep) { const n = new Elm(this.localName); this._at.forEach(a => n.setAttribute(a[0], a[1])); if (deep) this.childNodes.forEach(c => n.appendChild(c.cloneNode(true))); return n; }
    set innerText(v) { this.textContent = v; }
    get innerText() { return this.textContent; }
    set innerHTML(v) { this.textContent = ""; this.html = String(v); if (/[<&]/.test(this.html)) this.appendChild(Object.assign(new Elm("unknown"), { html: this.html })); else if (this.html !== "") this.appendChild(new Tx(this.html)); }
    get innerHTML() { return show(this, true); }
    querySelector(q) { const m = /^\[?#?(.*)$/.exec(q); return this._find(m[1]); }
    _find(id) { for (const c of this.children) { if (c.getAttribute("id") === id) return c; const r = c._find(id); if (r) return r; } return null; }
}
function show(n, inner) {
    if (n.nodeType === 3) return JSON.stringify(n.data);
    const b = n.childNodes.map(c => show(c)).join("");
    if (inner) return b;
    return "<" + n.localName + n._at.slice().sort((a, b) => a[0] < b[0] ? -1 : 1).map(a => " " + a[0] + "=" + JSON.stringify(a[1])).join("") + ">" + b + "</" + n.localName + ">";
}
// what the user sees and can do, without the ids
function plain(n) {
    if (n.nodeType === 3) return n.data;
    const o = { tag: n.localName, attributes: Object.fromEntries(n._at.filter(a => a[0] !== "id").sort()), on: n._ls.map(l => l[0]), children: n.childNodes.filter(c => c.nodeType !== 3 || c.data !== "").map(plain) };
    return o;
}
function open(repo, location) {
    const html = new Elm("html"), head = new Elm("head"), body = new Elm("body");
    html.appendChild(head); html.appendChild(body);
    const sockets = [];
    class WS {
        constructor(url) { this.url = url; this.sent = []; this.readyState = 1; this._h = {}; sockets.push(this); }
        send(x) { this.sent.push(x); }
        close() { this.readyState = 3; }
        addEventListener(t, f) { (this._h[t] = this._h[t] || []).push(f); }
        message(data) { const e = { data: typeof data === "string" ? data : JSON.stringify(data) }; if (this.onmessage) this.onmessage(e); (this._h.message || []).forEach(f => f(e)); }
    }
    const document = {
        body, head, documentElement: html, readyState: "complete", addEventListener(t, f) { f({}); },
        createElement: n => new Elm(n), createTextNode: d => new Tx(d), getElementById: id => html._find(String(id)),
        querySelector: q => { const m = /^#(.*)$/.exec(q) || /^\[id="?(.*?)"?\]$/.exec(q); return m ? html._find(m[1]) : q === "body" ? body : null; },
    };
    const loc = Object.assign({ protocol: "http:", host: "localhost:1234", hostname: "localhost", port: "1234", pathname: "/", search: "", hash: "" }, location || {});
    loc.href = loc.protocol + "//" + loc.host + loc.pathname + loc.search + loc.hash;
    const silent = { log() { }, error() { }, warn() { }, info() { }, debug() { } };
    const ctx = { document, WebSocket: WS, Node: Object.assign(Nd, { TEXT_NODE: 3, ELEMENT_NODE: 1 }), Text: Tx, HTMLElement: Elm, Element: Elm, console: silent, location: loc, JSON, setTimeout, addEventListener(t, f) { f({}); } };
    ctx.window = ctx; ctx.self = ctx; ctx.globalThis = ctx;
    WS.OPEN = 1; document.location = loc;
    vm.runInNewContext(fs.readFileSync(path.join(repo, "puck_liveview/client/index.js"), "utf8"), ctx);
    const ws = sockets[sockets.length - 1];
    const fire = (el, type, extra) => {
        const e = Object.assign({ type, target: el, currentTarget: el, defaultPrevented: false, preventDefault() { e.defaultPrevented = true; }, stopPropagation() { } }, extra || {});
        [...el._ls].filter(l => l[0] === type).forEach(l => l[1].call(el, e));
        return e;
    };
    return { document, body, ws, fire, sockets, text: () => show(body, true), plain: () => body.childNodes.map(plain) };
}
module.exports = { open, show, plain };
