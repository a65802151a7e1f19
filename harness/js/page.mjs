// Loads the pages of the web UI from /repo/ui/assets with the React that is there.
import vm from 'node:vm';
import fs from 'node:fs';
import path from 'node:path';
import { Document } from './dom.mjs';
import { require, env, fail } from './report.mjs';

const esbuild = require('esbuild');
const JS = '/repo/ui/assets/js';
const LIMIT = 4000; // ms that anything on a page may take

// What the two npm packages do, as far as one can see without them.
const STUBS = {
    reqwest: 'module.exports = function (o) { return window.__reqwest(o); };',
    'merge-anything': `
        function plain(x) { return x !== null && typeof x === "object" && Object.getPrototypeOf(x) === Object.prototype; }
        function copy(x) { return plain(x) ? merge(x) : x; }
        function merge() {
            var r = {};
            for (var i = 0; i < arguments.length; i++) {
                for (var k in arguments[i]) {
                    var v = arguments[i][k];
                    r[k] = plain(r[k]) && plain(v) ? merge(r[k], v) : copy(v);
                }
            }
            return r;
        }
        module.exports = { merge: merge };`,
};

export function bundle(entry, format) {
    let r;
    try {
        r = esbuild.buildSync({
            entryPoints: [path.join(JS, entry)],
            bundle: true,
            write: false,
            format,
            loader: { '.js': 'jsx' },
            jsx: 'transform',
            target: 'es2020',
            logLevel: 'silent',
            external: Object.keys(STUBS),
        });
    } catch (e) {
        const text = (e.errors || []).map((x) => x.text).join('; ') || String(e);
        if (!e.errors || e.errors.length === 0 || /Could not resolve/.test(text)) env(`cannot bundle ${entry}: ${text}`);
        console.log(`HX-VIOLATION ${entry} cannot be parsed: ${text}`);
        process.exit(1);
    }
    return r.outputFiles[0].text;
}

/** The module as an object. */
export function load(entry) {
    const module = { exports: {} };
    new Function('module', 'exports', 'require', bundle(entry, 'cjs'))(module, module.exports, () => ({}));
    return module.exports;
}

const react = fs.readdirSync(JS).filter((f) => /^react-.*\.min\.js$/.test(f));
const scripts = {};
function script(name) {
    if (!scripts[name]) {
        const src =
            name === 'react'
                ? fs.readFileSync(path.join(JS, react[0]), 'utf8')
                : `(function () { var require = function (n) { return window.__modules[n]; };\n${bundle(name, 'iife')}\n})();`;
        scripts[name] = new vm.Script(src, { filename: name });
    }
    return scripts[name];
}
const stubs = new vm.Script(
    `window.__modules = {};` +
        Object.entries(STUBS).map(([n, s]) => `(function () { var module = { exports: {} }; ${s}; window.__modules[${JSON.stringify(n)}] = module.exports; })();`).join('\n') +
        // esbuild reads "default" of modules that it does not see
        ``,
);

export class Page {
    /** Opens a page; query: the part of its url from the '?'; modelData: the repositories, or undefined. */
    constructor(entry, query, modelData) {
        this.document = new Document();
        const root = this.document.createElement('div');
        root.id = 'root';
        this.document.body.appendChild(root);
        this.root = root;
        this.requests = []; // {url, params, done}
        this.pushed = [];
        this.errors = [];
        this.pop = [];
        const page = this;
        const win = {
            document: this.document,
            location: { search: query, pathname: '/', href: 'http://h/' + query, hash: '', host: 'h', protocol: 'http:' },
            history: { pushState: (st, title, url) => this.pushed.push(url), replaceState() {} },
            navigator: { userAgent: 'test' },
            screen: {},
            console: { log() {}, info() {}, warn() {}, debug() {}, error: (...a) => this.errors.push(a.join(' ')) },
            setTimeout, clearTimeout, setInterval, clearInterval,
            pageXOffset: 0, pageYOffset: 0,
            addEventListener(type, f) { if (type === 'popstate') page.pop.push(f); },
            removeEventListener() {},
            URLSearchParams, URL,
            __reqwest(o) {
                page.requests.push({ url: o.url, params: o.data || {}, opt: o, done: false });
            },
        };
        win.window = win.self = win.top = win;
        if (modelData !== undefined) win.ModelData = modelData;
        this.win = win;
        this.ctx = vm.createContext(win);
        this.thunk = new vm.Script('__thunk()');
        stubs.runInContext(this.ctx);
        script('react').runInContext(this.ctx);
        this.run('opening the page', () => script(entry).runInContext(this.ctx));
    }

    /** Runs f, in bounded time and without an exception. */
    run(what, f) {
        this.win.__thunk = f;
        try {
            this.thunk.runInContext(this.ctx, { timeout: LIMIT });
        } catch (e) {
            if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') {
                console.log(`HX-HANG ${what} does not end`);
                fail(`${what} does not end within ${LIMIT} ms`);
            }
            fail(`${what} throws ${e && e.stack ? e.stack : e}`);
        }
    }

    parse(json) {
        return vm.runInContext('JSON.parse', this.ctx)(json);
    }

    /** Answers a request: with an object, or a failure if it is undefined. */
    answer(req, data) {
        req.done = true;
        this.run(`the answer to ${req.url}`, () => {
            if (data === undefined) req.opt.error({ status: 500 }, 'error', new Error('x'));
            else req.opt.success(this.parse(JSON.stringify(data)));
        });
    }

    fire(type, el, more) {
        this.run(`the event ${type}`, () => this.document.fire(type, el, more));
    }

    /** Goes to another address within the page, as the back button does. */
    popstate(query) {
        this.win.location.search = query;
        this.run('popstate', () => this.pop.forEach((f) => f({ type: 'popstate', state: {} })));
    }

    byId(id) {
        return this.document.getElementById(id);
    }
    all(cls, el) {
        return (el || this.root).getElementsByClassName(cls);
    }
}
