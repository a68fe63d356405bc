// Writes the syntax tree of each JavaScript file named on standard input as
// JSON (FILE.json next to it), as the acorn parser sees it.
import { createRequire } from 'node:module';
import fs from 'node:fs';
const acorn = createRequire('/opt/veriftools/node/node_modules/x.js')('acorn');
const lineStarts = s => { const r = [0]; for (let i = 0; i < s.length; i++) if (s.charCodeAt(i) === 10) r.push(i + 1); return r; };
for (const p of fs.readFileSync(0, 'utf8').split('\n').map(x => x.trim()).filter(Boolean)) {
    const text = fs.readFileSync(p, 'utf8');
    let out;
    try {
        const type = /^\s*(export|import)\b/m.test(text) ? 'module' : 'script';
        const tree = acorn.parse(text, { ecmaVersion: 2022, sourceType: type });
        const ls = lineStarts(text);
        const line = pos => { let a = 0, b = ls.length; while (b - a > 1) { const c = (a + b) >> 1; if (ls[c] <= pos) a = c; else b = c; } return a + 1; };
        out = JSON.stringify(tree, function (k, v) {
            if (typeof v === 'bigint' || k === 'raw') return undefined;
            if (v && typeof v === 'object' && typeof v.type === 'string') return { ...v, line: line(v.start) };
            return v;
        });
    } catch (e) {
        if (!(e instanceof SyntaxError)) throw e;
        out = JSON.stringify({ error: String(e.message) });
    }
    fs.writeFileSync(p + '.json', out);
}
