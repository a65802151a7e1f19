// Runs a property with fast-check and writes the statistics that run.py reads.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import crypto from 'node:crypto';

export const require = createRequire('/opt/veriftools/node/package.json');

const seed = Number(process.env.HX_SEED || 1) | 0;
const runs = Number(process.env.HX_CHECKS || 100);
const stats = { evals: 0, hashes: new Set(), classes: {}, known: {}, samples: new Map() };

export function Class(c, n = 1) {
    if (n) stats.classes[c] = (stats.classes[c] || 0) + n;
}

export function count(key, nontrivial) {
    stats.evals++;
    if (!nontrivial) return;
    Class('nontrivial');
    const h = crypto.createHash('sha256').update(key).digest('hex').slice(0, 16);
    stats.hashes.add(h);
    stats.samples.set(h, key.slice(0, 1500));
    if (stats.samples.size > 4) {
        stats.samples.delete([...stats.samples.keys()].sort().at(-1));
    }
}

export function known(id) {
    stats.known[id] = (stats.known[id] || 0) + 1;
}

export function isKnown(id) {
    const text = fs.readFileSync(process.env.HX_KNOWN, 'utf8');
    return text.split('\n').some((l) => l.trim() && JSON.parse(l).id === id && JSON.parse(l).status === 'known');
}

export class Violation extends Error {}

export function fail(msg) {
    throw new Violation(msg);
}

export function env(msg) {
    console.log('HX-ENVIRONMENT: ' + msg);
    process.exit(97);
}

/** Draws are a sequence of bounded integers, which is what is recorded and shrunk. */
class Source {
    constructor(seed, script) {
        this.a = seed >>> 0;
        this.script = script;
        this.draws = [];
    }
    next() {
        // mulberry32
        this.a = (this.a + 0x6d2b79f5) >>> 0;
        let t = this.a;
        t = Math.imul(t ^ (t >>> 15), t | 1);
        t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
        return (t ^ (t >>> 14)) >>> 0;
    }
    /** An integer from 0 to max. */
    nat(max) {
        const i = this.draws.length;
        const v = this.script ? Math.min(this.script[i] || 0, max) : this.next() % (max + 1);
        this.draws.push(v);
        return v;
    }
    int(min, max) { return min + this.nat(max - min); }
    bool() { return this.nat(1) === 1; }
    one(...xs) { return xs[this.nat(xs.length - 1)]; }
    list(f, min, max) {
        const r = [];
        for (let n = this.int(min, max); n > 0; n--) r.push(f(this));
        return r;
    }
    subset(xs, min) {
        const r = xs.filter(() => this.bool());
        for (const x of xs) if (r.length < min && !r.includes(x)) r.push(x);
        return r;
    }
    /** Some of xs, each once, in any order. */
    uniq(xs, min, max) {
        const rest = [...xs];
        return this.list(() => rest.splice(this.nat(rest.length - 1), 1)[0], min, Math.min(max, xs.length));
    }
    str(alphabet, max) { return this.list(() => this.one(...alphabet), 0, max).join(''); }
    /** Any characters, without lone surrogates. */
    uni(max) {
        return this.list(() => {
            const c = this.one(0x7f, 0x7f, 0xff, 0xd7ff, 0x10ffff);
            const v = this.nat(c);
            return v >= 0xd800 && v < 0xe000 ? 'x' : String.fromCodePoint(v);
        }, 0, max).join('');
    }
}

/**
 * Checks one property after the other; cases: [[name, predicate, share]].
 * A predicate that throws refutes its property.
 */
export function main(cases) {
    const replay = process.env.HX_REPLAY ? JSON.parse(fs.readFileSync(process.env.HX_REPLAY, 'utf8')) : null;
    const tries = (pred, src) => {
        try {
            pred(src);
            return null;
        } catch (e) {
            return e;
        }
    };
    let ci = 0;
    for (const [name, pred, share] of cases) {
        ci++;
        if (replay && replay.name !== name) continue;
        for (let run = Math.ceil(runs * (share || 1)); run > 0; run--) {
            let src = new Source(seed * 31 + ci * 0x1000193 + run * 0x9e3779b1, replay && replay.draws);
            let err = tries(pred, src);
            if (!err) {
                if (replay) break;
                continue;
            }
            const first = err;
            if (!replay) {
                // shrink: leave out draws, make them smaller
                const end = Date.now() + 15000;
                let best = src.draws;
                const better = (d) => {
                    if (Date.now() > end) return false;
                    const s = new Source(0, d);
                    const e = tries(pred, s);
                    // what is left of the draws that were used counts
                    const used = s.draws;
                    if (!e || used.length > best.length || (used.length === best.length && !used.some((v, i) => v < best[i] && used.slice(0, i).every((w, j) => w === best[j])))) return false;
                    best = used;
                    err = e;
                    return true;
                };
                for (let again = true; again && Date.now() < end; ) {
                    again = false;
                    for (let size = best.length >> 1; size > 0; size >>= 1) {
                        for (let i = 0; i + size <= best.length; ) {
                            if (better([...best.slice(0, i), ...best.slice(i + size)])) again = true;
                            else i += size;
                        }
                    }
                    for (let i = 0; i < best.length; i++) {
                        for (const v of [0, best[i] >> 1, best[i] - 1]) {
                            if (v >= 0 && v < best[i] && better([...best.slice(0, i), v, ...best.slice(i + 1)])) {
                                again = true;
                                break;
                            }
                        }
                    }
                }
                fs.writeFileSync('failure.json', JSON.stringify({ name, draws: best, message: err.message }));
            }
            console.log(`HX-VIOLATION in ${name}`);
            console.log(err instanceof Violation ? err.message : err && err.stack ? err.stack : String(err));
            if (first !== err) console.log('before shrinking: ' + String(first.message).slice(0, 2000));
            process.exitCode = 1;
            ci = -1;
            break;
        }
        if (ci < 0) break;
    }
    fs.writeFileSync(
        process.env.HX_STATS || '/dev/null',
        JSON.stringify({
            evals: stats.evals,
            hashes: [...stats.hashes],
            classes: stats.classes,
            known: stats.known,
            samples: [...stats.samples.values()],
        }),
    );
}
