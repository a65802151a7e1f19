// Evaluates scripts of pages, one JSON line each, as a browser would.
const vm = require('vm');
require('readline').createInterface({input: process.stdin}).on('line', (line) => {
    const q = JSON.parse(line);
    let a;
    try {
        const ctx = vm.createContext({});
        vm.runInContext(q, ctx, {timeout: 10000});
        const extra = Object.keys(ctx).filter((k) => k !== 'ModelData');
        let v = vm.runInContext('ModelData', ctx);
        a = {Value: JSON.stringify(typeof v === 'string' ? JSON.parse(v) : v), Object: typeof v !== 'string', Extra: extra};
    } catch (e) {
        a = {Err: String(e)};
    }
    process.stdout.write(JSON.stringify(a) + '\n');
});
