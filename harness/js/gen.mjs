// Generators of repositories and responses, and what the pages should make of them.
export const PLACES = ['url', 'hostname', 'port', 'project', 'repo', 'path', 'rev', 'anchor'];

/** Replaces the placeholders of values in template, in one pass from the left. */
export function expand(template, values) {
    let out = '';
    for (let i = 0; i < template.length; ) {
        const n = Object.keys(values).find((k) => template.startsWith(`{${k}}`, i));
        if (n === undefined) {
            out += template[i++];
        } else {
            out += values[n];
            i += n.length + 2;
        }
    }
    return out;
}

/** A repository: {kind, conf, parts: what its placeholders stand for}. */
export function genRepo(g) {
    const kind = g.one('plain', 'plain', 'scp', 'ssh', 'wiki');
    const host = g.one('h.example', 'github.com', 'wiki.example', 'x.wiki.example', 'localhost');
    const proj = g.one('Org', 'a', 'a/b', 'my.wiki', 'o-1_x', 'x.git');
    const name = g.one('Name', 'n.js', 'x_1', 'wiki', 'gitx', 'a.git.b');
    const git = g.one('', '.git');
    const none = { hostname: '', port: '', project: '', repo: '' };
    switch (kind) {
        case 'scp': {
            const user = g.one('git', 'hg');
            return { kind, conf: { url: `${user}@${host}:${proj}/${name}${git}` }, parts: { url: `//${host}/${proj}/${name}`, hostname: `//${host}`, port: '', project: proj, repo: name } };
        }
        case 'ssh': {
            const user = g.one('git', 'hg');
            const port = g.one('', ':7999', ':22');
            return { kind, conf: { url: `ssh://${user}@${host}${port}/${proj}/${name}${git}` }, parts: { url: `//${host}${port}/${proj}/${name}`, hostname: `//${host}`, port, project: proj, repo: name } };
        }
        case 'wiki': {
            const base = `https://${host}/${proj}/${name}`;
            return { kind, conf: { url: `${base}.wiki${git}` }, parts: { ...none, url: `${base}/wiki` } };
        }
    }
    const base = g.one(`https://${host}/${proj}/${name}`, `http://${host}:8080/${name}`, `file:///d/${name}`, `/d/${name}`, name, `https://${host}/${proj}/${name}?a=b&c=$&`, `https://${host}/{path}/$$x`);
    return { kind, conf: { url: base + git }, parts: { ...none, url: base } };
}

const pathPart = ['a', 'b.go', 'x.md', 'README.md', 'é', '\u{1F600}', '$&', '$1', '$$', '{path}', '{line}', '{anchor}', '{url}', 'a b', 'a#b', 'a?b', '%20', '100%', '<i>', '&amp;', '"', "'", '\\', '.md', '.wiki', 'git@h:x', 'x.git', '\u00a0'];

export function genPath(g) {
    return g.list(() => g.one(...pathPart), 1, 4).join('/');
}

export function genRev(g) {
    return g.one('abc123', 'main', '$&', '{path}', 'r1/x', '7', 'é', '');
}

export function genPattern(g) {
    const lit = () => g.one('/', '-', 'x', '?a=', '#', '$&', '$', '{', '}', '{nope}', '&', '%2F', '//');
    const place = () => g.one(...PLACES.map((p) => `{${p}}`), '{path}', '{anchor}', '{rev}', '{url}');
    const aplace = () => g.one('{line}', '{line}', '{filename}');
    const base = g.bool() ? g.one('{url}/blob/{rev}/{path}{anchor}', '{url}?p={path}&at={rev}{anchor}') : g.list(() => g.one(place, place, lit)(), 0, 7).join('');
    const anchor = g.bool() ? g.one('#L{line}', '#{filename}-{line}') : g.list(() => (g.bool() ? aplace() : g.one('#', 'L', '-', '$&', '{nope}', '{', '}', '{path}', '{rev}')), 0, 5).join('');
    return { 'base-url': base, anchor };
}

/** The link to a line (or a file, if line is null) of a repository. */
export function linkFor(repo, path, line, rev) {
    const pattern = repo.conf['url-pattern'];
    const filename = path.slice(path.lastIndexOf('/') + 1);
    const wiki = repo.kind === 'wiki';
    return expand(pattern['base-url'], {
        ...repo.parts,
        path: wiki ? path.replace(/\.md$/, '') : path,
        rev,
        anchor: line && !wiki ? expand(pattern.anchor, { line, filename }) : '',
    });
}

// Lines

const linePart = ['foo', 'Foo', 'f', 'oo', 'bar', 'a', 'aa', 'b', ' ', '  ', '\t', '', '<b>', '</em>', '<em>', '<script>', '&amp;', '&', '&lt;', '"', "'", '$&', '$1', 'a.b', 'a*b', '(', '[x]', '\\', 'é', '\u{1F600}', '\u00a0', '日本', 'x', '0', '-', '{line}', '`'];

export function genLine(g, seeds) {
    const part = () => (seeds.length && g.nat(2) === 2 ? g.one(...seeds) : g.one(...linePart));
    return g.list(part, 0, 6).join('');
}

/**
 * Matches in a file, as the server finds them: {matches, lines: Map of number
 * to {text, match}}; the lines have to be in the result.
 */
export function genMatches(g, seeds) {
    const size = g.one(1, 3, 8, 20, 30);
    const offset = g.one(0, 0, 0, 95, 99990);
    const ctx = g.int(0, 4);
    const texts = {};
    const text = (i) => (texts[i] = texts[i] === undefined ? genLine(g, seeds) : texts[i]);
    let at = [...new Set(g.list(() => g.int(1, size), 1, 7))].sort((a, b) => a - b);
    const lines = new Map();
    const odd = g.int(0, 3) === 0;
    let first = 1;
    const matches = at.map((i) => {
        let from = Math.max(1, i - ctx);
        let to = Math.min(size, i + ctx);
        if (odd) {
            from = g.int(Math.max(first, i - 3), i);
            to = g.int(i, Math.min(size, i + 3));
            first = from;
        }
        const part = (a, b) => {
            const r = [];
            for (let k = a; k <= b; k++) {
                r.push(text(k));
                if (!lines.has(k + offset)) lines.set(k + offset, { text: text(k), match: false });
            }
            return r;
        };
        const m = { Line: part(i, i)[0], LineNumber: i + offset, Before: part(from, i - 1), After: part(i + 1, to) };
        lines.get(i + offset).match = true;
        return m;
    });
    return { matches, lines: new Map([...lines].sort((a, b) => a[0] - b[0])) };
}

function oneMatch(g, seeds) {
    const text = genLine(g, seeds);
    return { matches: [{ Line: text, LineNumber: 1, Before: [], After: [] }], lines: new Map([[1, { text, match: true }]]) };
}

/** The repositories of a page: {name: repo}. */
export function genRepos(g, n) {
    const names = g.uniq(['r1', 'r2', 'a/b', 'x y', 'é', 'a&b', 'a=b', 'a+b', '100%', '<i>', '#x', 'q', 'R1', '"'], n || 1, 4);
    const repos = {};
    for (const name of names) {
        const r = genRepo(g);
        r.conf['url-pattern'] = genPattern(g);
        if (g.bool()) r.conf['display-name'] = g.one(`D ${name}`, 'D&amp;', '');
        if (r.conf['display-name'] === '') delete r.conf['display-name'];
        repos[name] = r;
    }
    return repos;
}

/** The result of a search in one repository: {json, files: [{name, lines, generated}], rev}. */
export function genResult(g, seeds, tag, huge) {
    const rev = genRev(g);
    const files = [];
    if (huge) {
        // more than the page loads at once
        const { matches, lines } = oneMatch(g, seeds);
        const total = g.one(2001, 2021, 2022, 2300, 4050);
        for (let i = 0; i < total; i++) files.push({ name: `${tag}${i}/f`, lines, matches, generated: false });
        return { rev, files, json: () => ({ Matches: files.map((f) => ({ Filename: f.name, Matches: f.matches, AutoGenerated: false })), FilesWithMatch: total, Revision: rev }) };
    }
    const many = g.nat(11) === 11;
    const n = many ? g.one(12, 30, 70) : g.int(1, 3);
    for (let i = 0; i < n; i++) {
        const { matches, lines } = many && i > 2 ? oneMatch(g, seeds) : genMatches(g, seeds);
        files.push({ name: `${tag}${i}/${genPath(g)}`, lines, matches, generated: g.int(0, 3) === 0 });
    }
    return {
        rev,
        files,
        json: (total) => ({ Matches: files.map((f) => ({ Filename: f.name, Matches: f.matches, AutoGenerated: f.generated })), FilesWithMatch: total === undefined ? n : total, Revision: rev }),
    };
}

/** A query: {q, literal, i, spans(line): the [from, to) to be marked or undefined if that is left open, seeds}. */
export function genQuery(g) {
    const i = g.bool();
    if (g.bool()) {
        const q = (g.nat(3) ? g.one('foo', 'Foo', 'a.b', 'a*b', '(', '[x]', '\\', '$&', '<b>', '&amp;', '&', 'é', '^', '$', '|', 'o', 'aa', '(?i)x', 'x*', '+', '\u{1F600}', 'a b', '"', '#', ',', 'a,b', '-', '100%', 'k', 'ſ') : g.str('ab.*+?()[]{}|^$\\-# ', 4)).trim() || 'foo';
        // as JavaScript's regular expressions without the u flag do
        const fold = (c) => {
            if (!i) return c;
            const u = c.toUpperCase();
            return u.length !== 1 || (c.charCodeAt(0) >= 128 && u.charCodeAt(0) < 128) ? c : u;
        };
        const map = (s) => s.split('').map(fold).join('');
        return {
            q, literal: true, i, seeds: [q, q, i ? q.toUpperCase() : q],
            spans(line) {
                const r = [];
                const h = map(line), n = map(q);
                for (let k = h.indexOf(n); k >= 0; k = h.indexOf(n, k + n.length)) r.push([k, k + n.length]);
                return r;
            },
        };
    }
    const bad = ['(?i)foo', '(?P<n>foo)', '(?s).', '(?i', 'foo\\', '[[:alpha:]', '(?U)fo+', 'a**', ')'];
    const same = ['foo', 'o+', 'x*', '^', '$', '^a', '^', 'a|b', '(a)(b)?', '[a-c]+', '\\bfoo\\b', '.', 'a?', '\\s*', '(|a)', '(a|)', 'é', '<', '&', 'amp', 'f(?:o)o', '.*', '.+', 'a$', '^$', '[^a]', '\\$&', '(?:)', 'b*$', '\\B', 'a*?', '(?:a|b)*', '0*|x', '\\d*'];
    const q = g.one(...same, ...same, ...bad);
    return {
        q, literal: false, i, seeds: ['foo', 'a', 'x'],
        spans(line) {
            let re;
            try {
                re = new RegExp(q, i ? 'gi' : 'g');
            } catch (e) {
                return undefined;
            }
            return [...line.matchAll(re)].map((m) => [m.index, m.index + m[0].length]).filter(([a, b]) => a < b);
        },
    };
}
