// Reads what a page shows, and compares it with what it should show.
import { fail } from './report.mjs';
import { linkFor } from './gen.mjs';

const q = JSON.stringify;

/** The text of an element and, for each of its characters, whether it is marked. */
function marked(el) {
    let text = '';
    const at = [];
    const walk = (n, em) => {
        if (n.nodeType === 3) {
            text += n.data;
            for (let i = 0; i < n.data.length; i++) at.push(em);
            return;
        }
        for (const c of n.childNodes) walk(c, em || c.localName === 'em');
    };
    walk(el, false);
    return { text, at, others: el.getElementsByTagName('*').filter((e) => e.localName !== 'em').map((e) => e.localName) };
}

/** The name of a repository over its results; undefined if it may be anything. */
export function nameFor(name, repo) {
    const d = repo.conf['display-name'];
    if (d) return d;
    const m = /^https:\/\/[a-z.]+\/([A-Za-z]+)\/([A-Za-z]+)(\.git)?$/.exec(repo.conf.url);
    return m ? `${m[1]} / ${m[2]}` : undefined;
}

/**
 * want: {repos, results: {name: result of genResult}, query}. Compares the
 * results on the page with it; returns how many lines are marked.
 */
export function judge(page, want) {
    const left = new Set(Object.keys(want.results));
    const shown = page.all('repo');
    if (shown.length !== left.size) fail(`${shown.length} repositories are shown, want ${left.size}`);
    let marks = 0;
    for (const el of shown) {
        const files = page.all('file', el);
        const titles = files.map((f) => page.all('title', f)[0].getElementsByTagName('a')[0]);
        // the repository is known by its files, which are named after it
        const name = [...left].find((n) => titles.length > 0 && want.results[n].files.length > 0 && titles[0].textContent.startsWith(want.results[n].tag));
        if (name === undefined) fail(`no repository that is left has the file ${q(titles[0] && titles[0].textContent)}`);
        left.delete(name);
        const repo = want.repos[name];
        const res = want.results[name];
        const head = page.all('name', el)[0].textContent;
        const whead = nameFor(name, repo);
        if (whead !== undefined && head !== whead) fail(`repository ${q(name)} is called ${q(head)}, want ${q(whead)}`);
        const names = titles.map((t) => t.textContent);
        if (q(names) !== q(res.files.map((f) => f.name))) fail(`repository ${q(name)} is shown with the files ${q(names)}, want ${q(res.files.map((f) => f.name))}`);
        files.forEach((f, i) => {
            const wf = res.files[i];
            const where = `${q(name)}, file ${q(wf.name)}`;
            const link = linkFor(repo, wf.name, null, res.rev);
            if (titles[i].href !== link) fail(`${where}: the link is ${q(titles[i].href)}, want ${q(link)}`);
            const badge = page.all('file-badge', f).length > 0;
            if (badge !== wf.generated) fail(`${where}: ${badge ? '' : 'not '}shown as auto generated`);
            const got = [];
            for (const block of page.all('match', f)) {
                let last;
                for (const l of page.all('line', block)) {
                    const num = page.all('lnum', l)[0];
                    const n = Number(num.textContent);
                    if (last !== undefined && n !== last + 1) fail(`${where}: line ${n} directly follows line ${last}`);
                    last = n;
                    got.push(n);
                    const wl = wf.lines.get(n);
                    if (!wl) fail(`${where}: line ${num.textContent} is shown, which is not in the results`);
                    const wlink = linkFor(repo, wf.name, n, res.rev);
                    if (num.href !== wlink) fail(`${where}: the link of line ${n} is ${q(num.href)}, want ${q(wlink)}`);
                    const val = marked(page.all('lval', l)[0]);
                    if (val.text !== wl.text || val.others.length) fail(`${where}: line ${n} is shown as ${q(val.text)} with the elements ${q(val.others)}, want ${q(wl.text)}`);
                    const spans = want.query.spans(wl.text);
                    if (spans === undefined || (!wl.match && spans.length)) continue;
                    const wat = val.at.map((x, k) => wl.match && spans.some(([a, b]) => a <= k && k < b));
                    if (q(wat) !== q(val.at)) {
                        const show = (at) => wl.text.split('').map((c, k) => (at[k] ? `[${c}]` : c)).join('');
                        fail(`${where}: line ${n} is marked as ${q(show(val.at))}, want ${q(show(wat))} for ${q({ ...want.query, seeds: undefined })}`);
                    }
                    marks += spans.length;
                }
            }
            const wlines = [...wf.lines.keys()];
            if (q(got) !== q(wlines)) fail(`${where}: the lines ${got} are shown, want ${wlines}`);
        });
    }
    return marks;
}
