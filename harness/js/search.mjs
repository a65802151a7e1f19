// C31: histories of what a user does on the search page, with the server's
// answers coming in any order.
import { main, count, Class, fail } from './report.mjs';
import { Page } from './page.mjs';
import { genRepos, genResult, genQuery } from './gen.mjs';
import { judge } from './view.mjs';

const q = JSON.stringify;
const truth = (v) => ['fosho', 'true', '1'].includes(String(v).toLowerCase());
const FIELDS = ['q', 'files', 'excludeFiles'];
const WORDS = ['', '', 'foo', 'a b', 'a+b', 'a&b=c', '100%', '%41', 'é', '=', 'x=y', '#x', '\\.go$', '"', '<b>', '?', '&i=fosho', "'", '\u{1F600}', 'a/b'];

function history(g) {
    const trace = [];
    const repos = genRepos(g);
    const all = Object.keys(repos);
    const confs = Object.fromEntries(all.map((n) => [n, repos[n].conf]));
    const explain = (e) => {
        e.message = `${trace.join('; ')}: ${e.message}`;
        throw e;
    };

    // The parameter as a set of repositories.
    const effective = (r) => {
        if (r === undefined || r === '' || r === '*') return all;
        const want = r.split(',');
        return all.filter((n) => want.includes(n));
    };
    const enc = (s) => (g.bool() ? encodeURIComponent(s) : encodeURIComponent(s).replace(/%20/g, '+'));
    let asked = 0; // searches
    const hugeId = g.nat(19) === 19 ? g.one(1, 1, 2) : 0; // the search that finds very much
    let page, form, current, seen, urls = [];
    const kinds = new Set();

    function open(query, want) {
        const byData = g.bool();
        trace.push(`open ${q(query)}`);
        page = new Page('hound.js', query, byData ? q(confs) : undefined);
        seen = 0;
        current = null;
        if (!byData) {
            if (page.requests.length !== 1 || page.requests[0].url !== 'api/v1/repos') fail(`the page asks for ${q(page.requests.map((r) => r.url))}, want the repositories`);
            page.answer(page.requests[0], confs);
            seen = 1;
        }
        came(want);
    }

    // The address or the back button has set the form and started a search.
    function came(want) {
        form = { ...want };
        shown();
        requested(want, true);
    }

    function shown() {
        for (const k of FIELDS) if (page.byId(k).value !== form[k]) fail(`the field ${k} has ${q(page.byId(k).value)}, want ${q(form[k])}`);
        if (page.byId('ignore-case').checked !== form.i) fail(`"ignore case" is ${!form.i}`);
        if (page.byId('literal-search').checked !== form.literal) fail(`"literally" is ${!form.literal}`);
        const opts = page.byId('repos').options;
        if (q(opts.map((o) => o.value).sort()) !== q([...all].sort())) fail(`the repositories ${q(opts.map((o) => o.value))} can be selected, want ${q(all)}`);
        const sel = all.filter((n) => opts.some((o) => o.value === n && o.selected));
        const eff = form.repos;
        const none = sel.length === 0 || sel.length === all.length;
        if (none ? eff.length !== all.length && eff.length !== 0 : q(sel) !== q(eff)) fail(`the repositories ${q(sel)} are selected, want ${q(eff)}`);
    }

    // A search for want has to have been asked for.
    function requested(want, fromUrl) {
        const fresh = page.requests.slice(seen);
        seen = page.requests.length;
        if (want.q === '') {
            if (fresh.length) fail(`a search for ${q(fresh.map((r) => r.params))}, want none for an empty query`);
            // an address without a query does not search
            if (!fromUrl) {
                current = null;
                if (page.all('repo').length) fail('results are shown for an empty query');
            }
            if (fromUrl) current = null;
            return;
        }
        if (fresh.length !== 1) fail(`${fresh.length} requests, want one: ${q(fresh.map((r) => r.params))}`);
        const r = fresh[0];
        const p = r.params;
        if (r.url !== 'api/v1/search') fail(`a request for ${q(r.url)}`);
        for (const k of FIELDS) if (String(p[k] ?? '') !== want[k]) fail(`the search has ${k} ${q(p[k])}, want ${q(want[k])}`);
        for (const k of ['i', 'literal']) if (truth(p[k]) !== want[k]) fail(`the search has ${k} ${q(p[k])}, want ${want[k]}`);
        if (q(effective(p.repos)) !== q(want.repos)) fail(`the search is in the repositories ${q(p.repos)}, want ${q(want.repos)}`);
        const m = /^0?:(\d+)$/.exec(p.rng ?? ':1000000');
        if (!m) fail(`the search is for the range ${q(p.rng)}`);
        if (p.ctx !== undefined || p.limit !== undefined) fail(`the search is for ${q(p)}`);
        current = { want, req: r, limit: Number(m[1]) || Infinity, state: 'pending', results: {}, more: [], query: null, id: ++asked };
        current.query = genQueryFor(want);
    }

    function genQueryFor(want) {
        const k = known.get(`${want.q} ${want.literal} ${want.i}`);
        return k || { q: want.q, literal: want.literal, i: want.i, seeds: [want.q], spans: want.literal ? spansOf(want) : regexSpans(want) };
    }
    const known = new Map();
    const spansOf = (want) => (line) => (want.i ? undefined : occurrences(line, want.q));
    function occurrences(line, s) {
        const r = [];
        for (let k = line.indexOf(s); k >= 0; k = line.indexOf(s, k + s.length)) r.push([k, k + s.length]);
        return r;
    }
    const regexSpans = (want) => (line) => {
        try {
            return [...line.matchAll(new RegExp(want.q, want.i ? 'gi' : 'g'))].map((m) => [m.index, m.index + m[0].length]).filter(([a, b]) => a < b);
        } catch (e) {
            return undefined;
        }
    };

    // What the page shows for the current search.
    function judgeNow() {
        if (!current || current.state === 'pending') return;
        if (current.state === 'error') {
            const el = page.all('error');
            if (!el.length || !el[0].textContent.includes(current.error)) fail(`the error ${q(current.error)} is not shown`);
            if (page.all('repo').length) fail('results are shown with an error');
            return;
        }
        if (current.state === 'unclear') return;
        if (page.all('error').length) fail(`an error is shown: ${q(page.all('error')[0].textContent)}`);
        const n = Object.keys(current.results).length;
        if (n === 0 && !page.byId('no-result')) fail('nothing says that there are no results');
        judge(page, { repos, results: current.results, query: current.query });
        for (const b of page.all('moar')) {
            const r = byButton(b);
            if (!r) fail(`a button to load more for a repository with all its matches: ${q(b.textContent)}`);
        }
        const partial = Object.values(current.results).filter((r) => r.files.length < r.total);
        if (page.all('moar').length !== partial.length) fail(`${page.all('moar').length} buttons to load more, want ${partial.length}`);
        if (current.stats) {
            const vals = page.all('val').map((v) => v.textContent.replace(/,/g, ''));
            if (!vals.includes(`${current.stats.FilesOpened} files`) || !vals.includes(`${current.stats.Duration}ms server`)) fail(`the statistics ${q(vals)} are shown, want ${q(current.stats)}`);
        }
    }

    function byButton(b) {
        const el = page.all('repo').find((x) => x.contains(b));
        const title = page.all('title', page.all('file', el)[0])[0].getElementsByTagName('a')[0].textContent;
        return Object.values(current.results).find((r) => title.startsWith(r.tag) && r.files.length < r.total);
    }

    // Answers the request of the current search, or one of an earlier one.
    function answer(r) {
        const mine = current && current.req === r && current.state === 'pending';
        switch (g.one('results', 'results', 'results', 'results', 'nothing', 'error', 'failure')) {
            case 'error': {
                const e = g.one('error parsing regexp: <x>', 'boom & bust');
                trace.push(`${mine ? 'answer' : 'late answer'} error`);
                page.answer(r, { Error: e });
                if (mine) Object.assign(current, { state: 'error', error: e });
                break;
            }
            case 'failure':
                trace.push(`${mine ? 'the search fails' : 'an earlier search fails'}`);
                page.answer(r, undefined);
                if (mine) Object.assign(current, { state: 'error', error: '' });
                break;
            case 'nothing':
                trace.push(`${mine ? 'answer' : 'late answer'} nothing`);
                page.answer(r, { Results: {}, Stats: { FilesOpened: 0, Duration: 0 } });
                if (mine) Object.assign(current, { state: 'done', results: {}, stats: { FilesOpened: 0, Duration: 0 } });
                break;
            default: {
                const query = mine ? current.query : { seeds: [] };
                const names = g.subset(mine ? current.want.repos : all, 0);
                const results = {}, json = {};
                names.forEach((n, i) => {
                    const tag = `F${asked}-${i}-`;
                    const huge = mine && current.id === hugeId && i === 0;
                    const res = { ...genResult(g, query.seeds, tag, huge), tag };
                    if (huge) kinds.add('more than 2000 files');
                    const files = res.json().Matches;
                    // files that are left for later
                    const keep = huge ? g.one(20, 21, 1) : g.one(files.length, 1, 1, 2, 20);
                    const limit = Math.min(keep, mine ? current.limit : 99);
                    json[n] = { Matches: files.slice(0, limit), FilesWithMatch: files.length, Revision: res.rev };
                    results[n] = { ...res, all: res.files, raw: files, files: res.files.slice(0, limit), total: files.length, name: n };
                });
                const stats = { FilesOpened: g.nat(5000), Duration: g.one(0, 7, 999, 1000, 1234567) };
                trace.push(`${mine ? 'answer' : 'late answer'} with ${names.length} repositories${names.length && mine && current.id === hugeId ? `, ${results[names[0]].total} files` : ''}`);
                page.answer(r, { Results: json, Stats: stats });
                if (mine) Object.assign(current, { state: 'done', results, stats });
            }
        }
        if (!mine) kinds.add('answers that come late');
    }

    // Answers a request for more matches.
    function answerMore(m, works) {
        const mine = current === m.of && current.state === 'done';
        const res = m.res;
        const b = Number(m.b);
        const e = m.e === '' ? Infinity : Number(m.e);
        if (!works && g.nat(5) === 0) {
            trace.push('loading more fails');
            page.answer(m.req, g.bool() ? undefined : { Error: 'late' });
            if (mine) current.state = 'unclear';
        } else {
            trace.push(`${mine ? 'more' : 'late more'} matches`);
            const raw = res.raw.slice(b, b + e);
            page.answer(m.req, { Results: { [res.name]: { Matches: raw, FilesWithMatch: res.total, Revision: res.rev } }, Stats: { FilesOpened: 1, Duration: 1 } });
            if (mine) {
                for (let i = b; i < Math.min(b + e, res.all.length); i++) {
                    if (!res.files.includes(res.all[i])) res.files.push(res.all[i]);
                }
                kinds.add('loading more');
            }
        }
        if (!mine) kinds.add('answers that come late');
    }

    // Asks for more matches of the repository of that button.
    function loadMore(b) {
        const res = byButton(b);
        trace.push('load more');
        page.fire('click', b);
        const fresh = page.requests.slice(seen);
        seen = page.requests.length;
        const waiting = page.requests.some((r) => !r.done && r.more && r.more.of === current && r.more.res === res);
        if (fresh.length > 1 || (fresh.length === 0 && !waiting)) fail(`${fresh.length} requests for more matches, want one`);
        for (const r of fresh) {
            const p = r.params;
            const w = current.want;
            if (r.url !== 'api/v1/search') fail(`a request for ${q(r.url)}`);
            for (const k of FIELDS) if (String(p[k] ?? '') !== w[k]) fail(`the search for more has ${k} ${q(p[k])}, want ${q(w[k])}`);
            for (const k of ['i', 'literal']) if (truth(p[k]) !== w[k]) fail(`the search for more has ${k} ${q(p[k])}, want ${w[k]}`);
            if (p.repos !== res.name) fail(`the search for more is in the repositories ${q(p.repos)}, want ${q(res.name)}`);
            const m = /^(\d*):(\d*)$/.exec(p.rng ?? '');
            if (!m) fail(`the search for more is for the range ${q(p.rng)}`);
            if (Number(m[1]) !== res.files.length) fail(`the search for more is for the range ${q(p.rng)}, but ${res.files.length} files are there`);
            r.more = { req: r, of: current, res, b: m[1], e: m[2] === '0' ? '' : m[2] };
        }
    }

    function genForm() {
        const f = { q: '', files: '', excludeFiles: '', i: false, literal: false, repos: all };
        if (g.nat(6)) {
            const k = genQuery(g);
            f.q = k.q;
            f.i = k.i;
            f.literal = k.literal;
            known.set(`${k.q} ${k.literal} ${k.i}`, k);
        } else f.q = g.one(...WORDS);
        f.files = g.one(...WORDS);
        f.excludeFiles = g.one(...WORDS);
        if (g.bool()) f.repos = g.subset(all, 1);
        return f;
    }

    // An address with (some of) the form in it.
    function genUrl() {
        const f = genForm();
        const parts = [];
        const raw = (s) => {
            if (s === '100%' || s === 'x=y' || s === '=') return g.one(s, enc(s)); // as typed by hand
            return enc(s);
        };
        parts.push(`q=${raw(f.q)}`);
        for (const k of ['files', 'excludeFiles']) {
            if (g.bool()) parts.push(`${k}=${raw(f[k])}`);
            else f[k] = '';
        }
        for (const k of ['i', 'literal']) {
            if (f[k] || g.bool()) parts.push(`${k}=${f[k] ? g.one('fosho', 'true', '1', 'TRUE') : g.one('nope', 'false', '', '0')}`);
        }
        if (f.repos.length < all.length || g.bool()) {
            const names = [...f.repos];
            if (g.nat(4) === 0) names.push('no such');
            parts.push(`repos=${g.bool() ? enc(names.join(',')) : names.map(enc).join(',')}`);
        }
        if (g.nat(4) === 0) parts.push(g.one('x', 'x=1', '', 'utf8=%E2%9C%93'));
        for (let i = parts.length - 1; i > 0; i--) if (g.nat(3) === 0) parts.unshift(parts.splice(i, 1)[0]);
        return [`?${parts.join('&')}`, f];
    }

    // The address after the '?' as the form that it stands for.
    function formOf(url) {
        const p = new URLSearchParams(url.slice(url.indexOf('?')));
        const f = { q: p.get('q') ?? '', files: p.get('files') ?? '', excludeFiles: p.get('excludeFiles') ?? '', i: truth(p.get('i') ?? ''), literal: truth(p.get('literal') ?? '') };
        f.repos = effective(p.get('repos') ?? '*');
        return f;
    }

    try {
        const start = g.nat(3) === 0 ? ['', { q: '', files: '', excludeFiles: '', i: false, literal: false, repos: all }] : genUrl();
        urls.push(start);
        open(...start);
        for (let n = g.int(1, 12); n > 0; n--) {
            const pending = page.requests.filter((r) => !r.done);
            const more = page.all('moar').length > 0 && g.bool();
            switch (more ? 'more' : current && current.id === hugeId && current.state === 'done' && pending.length ? 'answer' : g.one('answer', 'answer', 'answer', 'answer', 'submit', 'submit', 'edit', 'back', 'reopen')) {
                case 'answer': {
                    if (!pending.length) break;
                    const r = pending[g.one(pending.length - 1, g.nat(pending.length - 1))];
                    const m = r.more;
                    if (m) answerMore(m);
                    else answer(r);
                    judgeNow();
                    break;
                }
                case 'edit': {
                    trace.push('edit');
                    page.byId('q').value = 'edited' + n;
                    page.byId('ignore-case').checked = !page.byId('ignore-case').checked;
                    form = { ...form, q: 'edited' + n, i: !form.i };
                    judgeNow();
                    break;
                }
                case 'submit': {
                    const f = genForm();
                    const pad = g.one('', '', ' ');
                    for (const k of FIELDS) page.byId(k).value = pad + f[k] + pad;
                    for (const [k, id] of [['i', 'ignore-case'], ['literal', 'literal-search']]) {
                        const box = page.byId(id);
                        box.checked = f[k];
                        page.fire('click', box);
                    }
                    const keep = g.bool();
                    const select = page.byId('repos');
                    if (keep) {
                        f.repos = form.repos.length ? form.repos : all;
                    } else {
                        const none = f.repos.length === all.length && g.bool();
                        for (const o of select.options) o.selected = !none && f.repos.includes(o.value);
                        page.fire('change', select);
                    }
                    trace.push(`${keep ? 'with the same repositories ' : ''}submit ${q({ ...f, repos: keep ? undefined : f.repos })}`);
                    const before = page.pushed.length;
                    if (g.bool()) page.fire('click', page.byId('dodat'));
                    else page.fire('keydown', page.byId(g.one(...FIELDS)), { keyCode: 13, which: 13, key: 'Enter' });
                    for (const k of FIELDS) f[k] = f[k].trim();
                    form = f;
                    if (page.pushed.length !== before + 1) fail(`${page.pushed.length - before} addresses are put in the history, want one`);
                    const url = page.pushed.at(-1);
                    const back = formOf(url);
                    if (q({ ...back, repos: 0 }) !== q({ q: f.q, files: f.files, excludeFiles: f.excludeFiles, i: f.i, literal: f.literal, repos: 0 }) || q(back.repos) !== q(f.repos)) fail(`the address is ${q(url)}, which stands for ${q(back)}, want ${q(f)}`);
                    urls.push([url.slice(url.indexOf('?')), back]);
                    page.win.location.search = urls.at(-1)[0];
                    requested(f, false);
                    if (f.q === '' && page.all('error').length === 0 && !page.byId('no-result')) fail('nothing says that there are no results');
                    break;
                }
                case 'more': {
                    const bs = page.all('moar');
                    if (!bs.length || !current || current.state !== 'done') break;
                    loadMore(bs[g.nat(bs.length - 1)]);
                    break;
                }
                case 'back': {
                    const [url, f] = urls[g.nat(urls.length - 1)];
                    trace.push(`back to ${q(url)}`);
                    page.popstate(url);
                    form = { ...f };
                    shown();
                    requested(f, false);
                    break;
                }
                case 'reopen': {
                    const [url, f] = urls[g.nat(urls.length - 1)];
                    for (const r of page.requests) r.done = true;
                    open(url, f);
                }
            }
        }
        // everything is answered in the end
        for (let r; (r = page.requests.find((x) => !x.done)); ) {
            if (r.more) answerMore(r.more);
            else answer(r);
            judgeNow();
        }
        // what is still missing can be had
        for (let n = 0; current && current.state === 'done' && page.all('moar').length; n++) {
            if (n > 3 * all.length) fail('some matches cannot be loaded');
            loadMore(page.all('moar')[0]);
            const r = page.requests.find((x) => !x.done);
            if (r) answerMore(r.more, true);
            judgeNow();
        }
    } catch (e) {
        explain(e);
    }
    for (const k of kinds) Class(k);
    Class('searches', asked);
    count(trace.join('; '), asked > 1 || kinds.size > 0);
}

main([['history', history]]);
