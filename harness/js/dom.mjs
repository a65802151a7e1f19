// As much of the DOM as React 0.12 and the pages of hound need.

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr']);

const escText = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');

function unescape(s) {
    return s.replace(/&(#x[0-9a-fA-F]+|#[0-9]+|[a-zA-Z]+);/g, (m, e) => {
        if (e[0] === '#') {
            return String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
        }
        const t = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0', copy: '\u00a9', ldquo: '\u201c', rdquo: '\u201d' }[e];
        return t === undefined ? m : t;
    });
}

class Node {
    constructor(doc, type, name) {
        this.ownerDocument = doc;
        this.nodeType = type;
        this.nodeName = name;
        this.parentNode = null;
        this.childNodes = [];
    }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    sibling(d) {
        if (!this.parentNode) return null;
        const c = this.parentNode.childNodes;
        return c[c.indexOf(this) + d] || null;
    }
    get nextSibling() { return this.sibling(1); }
    get previousSibling() { return this.sibling(-1); }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    insertBefore(n, ref) {
        if (n.nodeType === 11) {
            for (const c of [...n.childNodes]) this.insertBefore(c, ref);
            return n;
        }
        if (n.parentNode) n.parentNode.removeChild(n);
        const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
        if (i < 0) throw new Error('insertBefore: not a child');
        this.childNodes.splice(i, 0, n);
        n.parentNode = this;
        return n;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    append(...ns) { for (const n of ns) this.appendChild(typeof n === 'string' ? this.ownerDocument.createTextNode(n) : n); }
    removeChild(n) {
        const i = this.childNodes.indexOf(n);
        if (i < 0) throw new Error('removeChild: not a child');
        this.childNodes.splice(i, 1);
        n.parentNode = null;
        return n;
    }
    replaceChild(n, old) {
        this.insertBefore(n, old);
        return this.removeChild(old);
    }
    replaceChildren(...ns) {
        for (const c of [...this.childNodes]) this.removeChild(c);
        this.append(...ns);
    }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    hasChildNodes() { return this.childNodes.length > 0; }
    contains(n) {
        for (; n; n = n.parentNode) if (n === this) return true;
        return false;
    }
    get textContent() {
        return this.childNodes.map((c) => c.textContent).join('');
    }
    set textContent(s) {
        for (const c of [...this.childNodes]) this.removeChild(c);
        if (s !== null && s !== undefined && `${s}` !== '') this.appendChild(this.ownerDocument.createTextNode(`${s}`));
    }
    get innerText() { return this.textContent; }
    set innerText(s) { this.textContent = s; }
    cloneNode(deep) {
        const n = this.nodeType === 1 ? this.ownerDocument.createElement(this.localName) : this.nodeType === 3 ? this.ownerDocument.createTextNode(this.data) : this.ownerDocument.createDocumentFragment();
        if (this.nodeType === 1) n.attrs = new Map(this.attrs);
        if (deep) for (const c of this.childNodes) n.appendChild(c.cloneNode(true));
        return n;
    }
}

class Text extends Node {
    constructor(doc, s) {
        super(doc, 3, '#text');
        this.data = `${s}`;
    }
    get nodeValue() { return this.data; }
    set nodeValue(s) { this.data = `${s}`; }
    get textContent() { return this.data; }
    set textContent(s) { this.data = `${s}`; }
    get outer() { return escText(this.data); }
}

class Style {
    setProperty(k, v) { this[k] = v; }
    removeProperty(k) { delete this[k]; }
    getPropertyValue(k) { return this[k] || ''; }
}

class Element extends Node {
    constructor(doc, name) {
        super(doc, 1, name.toUpperCase());
        this.tagName = this.nodeName;
        this.localName = name.toLowerCase();
        this.attrs = new Map();
        this.style = new Style();
        this.scrollTop = this.scrollLeft = 0;
        this.own = {};
    }
    getAttribute(k) { const v = this.attrs.get(k.toLowerCase()); return v === undefined ? null : v; }
    setAttribute(k, v) { this.attrs.set(k.toLowerCase(), `${v}`); }
    removeAttribute(k) { this.attrs.delete(k.toLowerCase()); }
    hasAttribute(k) { return this.attrs.has(k.toLowerCase()); }
    getAttributeNode(k) { return this.hasAttribute(k) ? { value: this.getAttribute(k) } : null; }
    get children() { return this.childNodes.filter((c) => c.nodeType === 1); }
    get id() { return this.getAttribute('id') || ''; }
    set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') || ''; }
    set className(v) { this.setAttribute('class', v); }
    get innerHTML() { return this.childNodes.map((c) => c.outer).join(''); }
    set innerHTML(s) {
        for (const c of [...this.childNodes]) this.removeChild(c);
        parseInto(this, `${s}`);
    }
    insertAdjacentHTML(where, s) {
        if (where !== 'beforeend') throw new Error('insertAdjacentHTML ' + where);
        parseInto(this, `${s}`);
    }
    get outer() {
        const a = [...this.attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join('');
        return `<${this.localName}${a}>` + (VOID.has(this.localName) ? '' : this.innerHTML + `</${this.localName}>`);
    }
    get outerHTML() { return this.outer; }
    *walk() {
        for (const c of this.childNodes) {
            if (c.nodeType === 1) {
                yield c;
                yield* c.walk();
            }
        }
    }
    getElementsByTagName(t) { return [...this.walk()].filter((e) => t === '*' || e.localName === t.toLowerCase()); }
    getElementsByClassName(c) { return [...this.walk()].filter((e) => e.className.split(/\s+/).includes(c)); }
    focus() {}
    blur() {}
    select() {}
    setSelectionRange() {}
    addEventListener() {}
    removeEventListener() {}
    // form controls
    get type() { return this.localName === 'input' ? this.getAttribute('type') || 'text' : this.getAttribute('type') || ''; }
    get value() {
        switch (this.localName) {
            case 'input': return 'value' in this.own ? this.own.value : this.getAttribute('value') || '';
            case 'option': return this.hasAttribute('value') ? this.getAttribute('value') : this.textContent;
            case 'select': { const o = this.options.find((x) => x.selected); return o ? o.value : ''; }
        }
        return undefined;
    }
    set value(v) {
        if (this.localName === 'option') this.setAttribute('value', v);
        else if (this.localName === 'select') for (const o of this.options) o.selected = o.value === `${v}`;
        else this.own.value = `${v}`;
    }
    get checked() { return 'checked' in this.own ? this.own.checked : this.hasAttribute('checked'); }
    set checked(v) { this.own.checked = !!v; }
    get selected() { return 'selected' in this.own ? this.own.selected : this.hasAttribute('selected'); }
    set selected(v) { this.own.selected = !!v; }
    get multiple() { return this.hasAttribute('multiple'); }
    set multiple(v) { v ? this.setAttribute('multiple', '') : this.removeAttribute('multiple'); }
    get options() { return this.getElementsByTagName('option'); }
    get selectedOptions() { return this.options.filter((o) => o.selected); }
    get href() { return this.getAttribute('href') || ''; }
    set href(v) { this.setAttribute('href', v); }
    get src() { return this.getAttribute('src') || ''; }
    get title() { return this.getAttribute('title') || ''; }
    set title(v) { this.setAttribute('title', v); }
}

function parseInto(root, s) {
    const doc = root.ownerDocument;
    const stack = [root];
    let i = 0;
    const text = (t) => {
        if (t !== '') stack[stack.length - 1].appendChild(doc.createTextNode(t));
    };
    while (i < s.length) {
        const lt = s.indexOf('<', i);
        if (lt < 0) {
            text(unescape(s.slice(i)));
            break;
        }
        const close = /^<\/([a-zA-Z][^\s>]*)\s*>/.exec(s.slice(lt, lt + 200));
        const open = /^<([a-zA-Z][^\s\/>]*)((?:\s+[^\s=\/>]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']*))?)*)\s*(\/?)>/.exec(s.slice(lt));
        if (!close && !open) {
            text(unescape(s.slice(i, lt + 1)));
            i = lt + 1;
            continue;
        }
        text(unescape(s.slice(i, lt)));
        if (close) {
            const at = stack.findLastIndex((e, j) => j > 0 && e.localName === close[1].toLowerCase());
            if (at > 0) stack.length = at;
            i = lt + close[0].length;
            continue;
        }
        const e = doc.createElement(open[1]);
        for (const m of open[2].matchAll(/([^\s=\/>]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']*)))?/g)) {
            if (!e.hasAttribute(m[1])) e.setAttribute(m[1], unescape(m[2] ?? m[3] ?? m[4] ?? ''));
        }
        stack[stack.length - 1].appendChild(e);
        if (!VOID.has(e.localName)) stack.push(e);
        i = lt + open[0].length;
    }
}

export class Document extends Node {
    constructor() {
        super(null, 9, '#document');
        this.ownerDocument = this;
        this.listeners = [];
        this.documentElement = this.createElement('html');
        this.appendChild(this.documentElement);
        this.head = this.createElement('head');
        this.body = this.createElement('body');
        this.documentElement.appendChild(this.head);
        this.documentElement.appendChild(this.body);
        this.activeElement = this.body;
        this.readyState = 'complete';
        this.cookie = '';
        this.title = '';
        for (const t of ['change', 'input', 'click', 'keydown', 'keyup', 'keypress', 'focus', 'blur', 'focusin', 'wheel', 'scroll', 'submit']) this['on' + t] = null;
    }
    createElement(n) { return new Element(this, n); }
    createElementNS(ns, n) { return new Element(this, n); }
    createTextNode(s) { return new Text(this, s); }
    createDocumentFragment() { return new Node(this, 11, '#document-fragment'); }
    getElementById(id) { return [...this.documentElement.walk()].find((e) => e.id === id) || null; }
    getElementsByTagName(t) { return this.documentElement.getElementsByTagName(t); }
    addEventListener(type, f, capture) { this.listeners.push({ type, f, capture }); }
    removeEventListener(type, f) { this.listeners = this.listeners.filter((l) => l.type !== type || l.f !== f); }
    /** The event type happens at the element target. */
    fire(type, target, more) {
        const ev = Object.assign(
            {
                type, target, srcElement: target, currentTarget: this, bubbles: true, cancelable: true, eventPhase: 3, timeStamp: 1,
                altKey: false, ctrlKey: false, shiftKey: false, metaKey: false, button: 0, detail: 1, isTrusted: true, defaultPrevented: false,
                preventDefault() { this.defaultPrevented = true; }, stopPropagation() {},
            },
            more,
        );
        for (const l of [...this.listeners]) if (l.type === type) l.f.call(this, ev);
    }
}
