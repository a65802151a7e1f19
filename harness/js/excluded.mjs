// C31: the page of excluded files.
import { main, count, Class, fail, known, isKnown } from './report.mjs';
import { Page } from './page.mjs';
import { genRepos, genPath, linkFor } from './gen.mjs';

const q = JSON.stringify;
const FINDING = 'excluded-rev';
const listed = isKnown(FINDING);

function history(g) {
    const trace = [];
    const repos = genRepos(g);
    const all = Object.keys(repos);
    const page = new Page('excluded_files.js', '', undefined);
    let shown = null; // {name, files} as answered for the last chosen repository
    let rows = 0, late = 0;

    function judge() {
        if (!shown || !shown.files) return;
        const what = `${trace.join('; ')}: the page of ${q(shown.name)}`;
        const got = page.root.getElementsByTagName('tr').filter((r) => page.all('name', r).length);
        if (got.length !== shown.files.length) fail(`${what} shows ${got.length} files, want ${q(shown.files)}`);
        got.forEach((r, i) => {
            const w = shown.files[i];
            const name = page.all('name', r)[0].textContent, reason = page.all('reason', r)[0].textContent;
            if (name !== w.Filename || reason !== w.Reason) fail(`${what} has the file ${q([name, reason])}, want ${q(w)}`);
            const a = page.all('name', r)[0].getElementsByTagName('a')[0];
            const repo = repos[shown.name];
            const base = repo.conf['url-pattern']['base-url'];
            if (!base.includes('{rev}')) {
                const link = linkFor(repo, w.Filename, null, '');
                if (a.href !== link) fail(`${what}: the link of ${q(name)} is ${q(a.href)}, want ${q(link)}`);
            } else {
                // whatever the revision is
                const mark = '\u0001';
                const parts = linkFor(repo, w.Filename, null, mark).split(mark);
                const re = new RegExp('^' + parts.map((p) => p.replace(/[\\^$.*+?()[\]{}|]/g, '\\$&')).join('(.*?)') + '$', 's');
                if (!re.test(a.href)) fail(`${what}: the link of ${q(name)} is ${q(a.href)}, want ${q(parts.join('<revision>'))}`);
                if (a.href === linkFor(repo, w.Filename, null, 'undefined')) {
                    if (!listed) fail(`${what}: the link of ${q(name)} is ${q(a.href)}: it has no revision`);
                    known(FINDING);
                }
            }
            rows++;
        });
    }

    function click(name) {
        const b = page.root.getElementsByTagName('button').filter((x) => x.textContent === name);
        if (b.length !== 1) fail(`${trace.join('; ')}: ${b.length} buttons for ${q(name)}`);
        const before = page.requests.length;
        page.fire('click', b[0]);
        const fresh = page.requests.slice(before);
        if (fresh.length !== 1 || fresh[0].url !== 'api/v1/excludes' || fresh[0].params.repo !== name) fail(`${trace.join('; ')}: a click on ${q(name)} asks for ${q(fresh.map((r) => [r.url, r.params]))}`);
        fresh[0].name = name;
        shown = { name, req: fresh[0] };
    }

    const first = page.requests[0];
    if (page.requests.length !== 1 || first.url !== 'api/v1/repos') fail(`the page asks for ${q(page.requests.map((r) => r.url))}, want the repositories`);
    page.answer(first, Object.fromEntries(all.map((n) => [n, repos[n].conf])));
    const answer = (r) => {
        const files = g.list(() => ({ Filename: genPath(g), Reason: g.one('Not a text file.', 'Dot files are excluded.', '<b>&amp;', 'Invalid Mode') }), 0, 4);
        trace.push(`answer for ${q(r.name)}: ${q(files)}`);
        page.answer(r, files);
        if (r === shown.req) shown.files = files;
        else late++;
        judge();
    };
    for (let n = g.int(1, 8); n > 0; n--) {
        const pending = page.requests.filter((r) => !r.done);
        if (pending.length && g.bool()) answer(g.one(...pending));
        else {
            const name = g.one(...all);
            trace.push(`choose ${q(name)}`);
            click(name);
        }
    }
    for (let r; (r = page.requests.find((x) => !x.done)); ) answer(r);
    Class('rows', rows);
    Class('answers that come late', late);
    count(trace.join('; '), rows > 0);
}

main([['excluded', history]]);
