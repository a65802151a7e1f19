// C30: the results that the page shows for generated answers of the server.
import { main, count, Class } from './report.mjs';
import { Page } from './page.mjs';
import { genRepos, genResult, genQuery } from './gen.mjs';
import { judge } from './view.mjs';

function render(g) {
    const repos = genRepos(g);
    const page = new Page('hound.js', '', JSON.stringify(Object.fromEntries(Object.entries(repos).map(([n, r]) => [n, r.conf]))));
    for (let k = g.int(1, 3); k > 0; k--) {
        const query = genQuery(g);
        const names = g.subset(Object.keys(repos), 1);
        const results = {};
        names.forEach((n, i) => (results[n] = { ...genResult(g, query.seeds, `F${i}-`), tag: `F${i}-` }));
        page.popstate(`?q=${encodeURIComponent(query.q)}&i=${query.i ? 'fosho' : 'nope'}&literal=${query.literal ? 'fosho' : 'nope'}`);
        page.answer(page.requests.at(-1), { Results: Object.fromEntries(names.map((n) => [n, results[n].json()])), Stats: { FilesOpened: 1, Duration: 1 } });
        const marks = judge(page, { repos, results, query });
        let lines = 0, shared = 0;
        for (const r of Object.values(results)) {
            for (const f of r.files) {
                lines += f.lines.size;
                shared += f.matches.reduce((s, m) => s + 1 + m.Before.length + m.After.length, 0) - f.lines.size;
            }
        }
        Class('lines shown', lines);
        Class('lines shared by several matches', shared);
        Class('marked matches', marks);
        Class(query.literal ? 'literal queries' : 'regular expressions');
        count(`${query.literal ? 'literal' : 'regexp'} ${JSON.stringify(query.q)}${query.i ? ', ignoring case' : ''}: ${JSON.stringify(Object.fromEntries(names.map((n) => [n, results[n].json()])))}`, marks > 0 || shared > 0);
    }
}

main([['results', render]]);
