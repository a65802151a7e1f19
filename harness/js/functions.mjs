// C30: the functions that make links and regular expressions, and signals.
import { main, fail, count, Class } from './report.mjs';
import { load } from './page.mjs';
import { genRepo, genPath, genRev, genPattern, expand, linkFor, PLACES } from './gen.mjs';

const { EscapeRegExp, ExpandVars, UrlParts, UrlToRepo } = load('common.js');
const { Signal } = load('signal.js');
const q = JSON.stringify;

const odd = ['', '$&', '$$', "$'", '$`', '$1', '{', '}', '{}', '{x}', '{url}', '{path}', '{line}', 'a', 'ab', ' ', '/', 'a/b.c', '#', '?', '%20', 'é', '\u{1F600}', '\\', '\n', '.', '*', '&amp;', '<b>'];
const ascii = Array.from({ length: 95 }, (_, i) => String.fromCharCode(32 + i));
const text = (g) => [() => g.one(...odd), () => g.one(...odd), () => g.str(ascii, 8), () => g.uni(5)][g.nat(3)]();

function expandVars(g) {
    const names = g.uniq(['url', 'path', 'rev', 'line', 'filename', 'x', 'a-b', 'verb'], 0, 5);
    const values = {};
    for (const n of names) values[n] = g.bool() ? text(g) : g.nat(99999);
    let template = '';
    for (let i = g.int(0, 6); i > 0; i--) {
        template += g.bool() && names.length ? `{${g.one(...names)}}` : text(g);
    }
    const want = expand(template, values);
    const got = ExpandVars(template, values);
    if (got !== want) fail(`ExpandVars(${q(template)}, ${q(values)}) is ${q(got)}, want ${q(want)}`);
    count(`ExpandVars(${q(template)}, ${q(values)})`, want !== template);
}

function links(g) {
    const repo = genRepo(g);
    repo.conf['url-pattern'] = genPattern(g);
    const path = genPath(g);
    const rev = genRev(g);
    const line = g.one(null, '12', 1, g.int(1, 1000000));
    const what = `(${q(repo.conf)}, ${q(path)}, ${q(line)}, ${q(rev)})`;
    const before = q(repo.conf);
    const got = UrlToRepo(repo.conf, path, line, rev);
    const want = linkFor(repo, path, line, rev);
    if (got !== want) fail(`UrlToRepo${what} is ${q(got)}, want ${q(want)}`);
    const parts = UrlParts(repo.conf, path, line, rev);
    for (const k of PLACES) {
        const w = linkFor({ ...repo, conf: { ...repo.conf, 'url-pattern': { ...repo.conf['url-pattern'], 'base-url': `{${k}}` } } }, path, line, rev);
        if (parts[k] !== w) fail(`UrlParts${what}.${k} is ${q(parts[k])}, want ${q(w)}`);
    }
    if (q(repo.conf) !== before) fail(`UrlToRepo${what} changes the repository into ${q(repo.conf)}`);
    count(`UrlToRepo${what}`, line !== null || repo.kind !== 'plain');
    Class(`url: ${repo.kind}`);
}

const alphabet = [...'-[]{}()*+!<=:?./\\^$|# ,ab1\n\t_~@%&;"\'`é\u2028dswb'];
const special = (g) => g.str(alphabet, 12);
function escape(g) {
    const s = g.bool() ? special(g) : text(g);
    const e = EscapeRegExp(s);
    let re;
    try {
        re = new RegExp(`^(?:${e})$`);
    } catch (err) {
        fail(`EscapeRegExp(${q(s)}) is ${q(e)}, which is no regular expression: ${err}`);
    }
    if (!re.test(s)) fail(`EscapeRegExp(${q(s)}) is ${q(e)}, which does not match the string`);
    for (let i = g.int(0, 4); i > 0; i--) {
        // something near
        const at = g.int(0, s.length);
        const to = g.int(at, Math.min(s.length, at + 2));
        const t = s.slice(0, at) + (g.bool() ? special(g) : g.one('', 'a', 'x', ' ')) + s.slice(to);
        if (t !== s && re.test(t)) fail(`EscapeRegExp(${q(s)}) is ${q(e)}, which also matches ${q(t)}`);
    }
    // all occurrences in a text
    let hay = '';
    for (let i = g.int(0, 5); i > 0; i--) hay += g.bool() ? s : special(g);
    if (s !== '') {
        const want = [];
        for (let i = hay.indexOf(s); i >= 0; i = hay.indexOf(s, i + s.length)) want.push(i);
        const got = [...hay.matchAll(new RegExp(e, 'g'))].map((m) => m.index);
        if (q(got) !== q(want)) fail(`EscapeRegExp(${q(s)}) is ${q(e)}, which is found in ${q(hay)} at ${got}, want ${want}`);
    }
    count(`EscapeRegExp(${q(s)})`, e !== s);
}

function signals(g) {
    const sig = new Signal();
    const model = []; // the listeners tapped now
    const log = [];
    let depth = 0;
    const n = 4;
    // what a listener does when it is called, once per entry
    const acts = [];
    const trace = [];
    for (let i = 0; i < n; i++) {
        acts.push(g.list(() => [g.one('none', 'tap', 'untap', 'raise'), g.nat(n - 1)], 0, 3));
    }
    const left = acts.map((a) => [...a]);
    let raises = 0;
    let busy = 0;
    const ls = [];
    for (let i = 0; i < n; i++) {
        ls.push(function (...args) {
            log.push([i, args]);
            const a = left[i].shift();
            if (a) step(a);
        });
    }
    function step([op, i]) {
        trace.push(`${op} ${i}`);
        switch (op) {
            case 'tap':
                sig.tap(ls[i]);
                model.push(i);
                for (const r of open) r.tapped.push(i);
                break;
            case 'untap': {
                sig.untap(ls[i]);
                const at = model.indexOf(i);
                if (at >= 0) {
                    model.splice(at, 1);
                    for (const r of open) r.gone.push(i);
                }
                break;
            }
            case 'raise':
                raise();
        }
    }
    const open = []; // raises under way
    function raise() {
        const id = raises++;
        const args = [id, 'x', {}].slice(0, 1 + (id % 3));
        const r = { start: [...model], tapped: [], gone: [] };
        open.push(r);
        busy = Math.max(busy, open.length);
        sig.raise(...args);
        open.pop();
        const calls = log.filter(([, a]) => a[0] === id);
        for (const [, a] of calls) {
            if (a.length !== args.length || a.some((x, j) => x !== args[j])) fail(`signal after ${trace.join(', ')}: a listener is called with ${q(a)}, want ${q(args)}`);
        }
        for (let i = 0; i < n; i++) {
            const k = (l) => l.filter((x) => x === i).length;
            const got = k(calls.map(([j]) => j));
            // a listener that is taken out meanwhile may see the event or not
            const max = k(r.start);
            const min = Math.max(0, max - k(r.gone));
            if (got < min || got > max) fail(`signal after ${trace.join(', ')}: listener ${i} sees event ${id} ${got} times, want ${min === max ? max : `${min} to ${max}`} (listeners ${r.start})`);
        }
        const order = calls.map(([j]) => j);
        if (!r.gone.length && new Set(r.start).size === r.start.length && q(order) !== q(r.start)) fail(`signal after ${trace.join(', ')}: the listeners are called in the order ${order}, want ${r.start}`);
    }
    for (const s of g.list(() => [g.one('tap', 'tap', 'untap', 'raise'), g.nat(n - 1)], 0, 14)) step(s);
    count(`signal: ${trace.join(', ')}`, raises > 0 && trace.length > 2);
    Class('raises within a raise', busy > 1 ? 1 : 0);
}

main([
    ['ExpandVars', expandVars],
    ['links', links],
    ['EscapeRegExp', escape],
    ['Signal', signals],
]);
