// Runs recorded operations on the real generated JavaScript code.
import fs from 'node:fs';
import { pathToFileURL } from 'node:url';

const mods = new Map();
async function load(p) {
    if (!mods.has(p)) {
        const m = await import(pathToFileURL(p).href);
        mods.set(p, m.default);
    }
    return mods.get(p);
}
class DriverError extends Error {}
const norm = s => s.toLowerCase().replaceAll('_', '');
function find(root, name, fn) {
    const seen = new Set();
    const walk = o => {
        if (o === null || (typeof o !== 'object' && typeof o !== 'function') || seen.has(o)) return undefined;
        seen.add(o);
        for (const k of Object.getOwnPropertyNames(o)) {
            if (k === 'prototype' || k === 'caller' || k === 'callee' || k === 'arguments') continue;
            const v = o[k];
            if (norm(k) === norm(name) && (fn ? typeof v === 'function' && v.prototype : v && typeof v === 'object')) return v;
        }
        for (const k of Object.getOwnPropertyNames(o)) {
            if (k === 'prototype' || k === 'caller' || k === 'callee' || k === 'arguments') continue;
            const r = walk(o[k]);
            if (r) return r;
        }
        return undefined;
    };
    const r = walk(root);
    if (!r) throw new DriverError('no ' + name);
    return r;
}
function attr(o, name) {
    for (let p = o; p && p !== Object.prototype; p = Object.getPrototypeOf(p))
        for (const k of Object.getOwnPropertyNames(p))
            if (norm(k) === norm(name)) {
                const d = Object.getOwnPropertyDescriptor(p, k);
                if (typeof d.value !== 'function') return k;
            }
    return name;
}
const f32 = bits => { const d = new DataView(new ArrayBuffer(4)); d.setUint32(0, Number(bits)); return d.getFloat32(0); };
const f64 = bits => { const d = new DataView(new ArrayBuffer(8)); d.setBigUint64(0, BigInt(bits)); return d.getFloat64(0); };
let compat = false;
function hex(b) {
    if (!(b instanceof Uint8Array) && !Array.isArray(b) || Array.isArray(b) && !compat && b.length) throw new TypeError('buffer');
    for (let i = 0; i < b.length; i++) if (!Number.isInteger(b[i]) || b[i] < 0 || b[i] > 255) throw new TypeError('byte');
    return Buffer.from(b).toString('hex');
}
const bytes = h => compat ? Array.from(Buffer.from(h, 'hex')) : new Uint8Array(Buffer.from(h, 'hex'));
function val(m, v) {
    switch (v.k) {
    case 'arr': return v.e ? v.e.map(e => val(m, e)) : [];
    case 'struct': { const o = new (find(m, v.t, true))(); fill(m, o, v); return o; }
    case 'str': return Buffer.from(v.v, 'hex').toString('utf8');
    case 'bytes': return bytes(v.v);
    case 'bool': return v.v === '1';
    case 'f32': return f32(v.v);
    case 'f64': return f64(v.v);
    case 'i64': case 'u64': return BigInt(v.v);
    }
    return Number(v.v);
}
function fill(m, o, v) { for (const f of v.f || []) o[attr(o, f.n)] = val(m, f.v); }
function show(m, x, k, w, t) {
    switch (k) {
    case 'str': if (typeof x !== 'string') throw new TypeError('text'); return Buffer.from(x, 'utf8').toString('hex');
    case 'bytes': return hex(x);
    case 'bool': return typeof x === 'boolean' ? (x ? '1' : '0') : Number(x).toString(16);
    case 'f32': case 'f64': {
        if (typeof x !== 'number') throw new TypeError('number');
        if (x !== x) return 'nan';
        const d = new DataView(new ArrayBuffer(8));
        if (k === 'f32') { d.setFloat32(0, x); return d.getUint32(0).toString(16); }
        d.setFloat64(0, x);
        return d.getBigUint64(0).toString(16);
    }
    case 'enum':
        if (typeof x === 'string') x = find(m, t, false)[x];
        if (x === undefined) return '!-1';
        if (typeof x !== 'number') throw new TypeError('enum');
    }
    if (k === 'i64' || k === 'u64') { if (typeof x !== 'bigint') throw new TypeError('bigint'); }
    else if (typeof x !== 'number') throw new TypeError('number');
    if (typeof x === 'number' && !Number.isInteger(x)) return 'float' + x;
    const i = BigInt(x), b = BigInt(w);
    const lo = k[0] === 'i' ? -(1n << (b - 1n)) : 0n, hi = k[0] === 'i' ? 1n << (b - 1n) : 1n << b;
    if (i < lo || i >= hi) return '!' + i;
    return BigInt.asUintN(w, i).toString(16);
}

async function run(op) {
    compat = !!op.compat;
    const m = await load(op.file), C = find(m, op.st, true);
    const o = new C();
    if (op.init) fill(m, o, op.init);
    const buf = bytes(op.buf || '');
    const out = [];
    let dump = false, r;
    switch (op.kind) {
    case 'encode': r = o.encode(buf, op.start); out.push(`ret=${r} buf=${hex(buf)}`); break;
    case 'fresh': r = o.encode(); out.push(`ret=${r.length} buf=${hex(r)}`); break;
    case 'encsize': out.push('ret=' + o.encode_size()); break;
    case 'decsize': out.push('ret=' + C.decode_size(buf, op.start)); break;
    case 'decode': r = o.decode(buf, op.start); out.push('ret=' + r); dump = r >= 0; break;
    case 'alias':
        for (const n of op.own || []) o[attr(o, n)] = buf;
        r = o.decode(buf, op.start); out.push('ret=' + r); dump = r >= 0;
        if (dump) for (const [i, b] of Buffer.from(op.buf2 || '', 'hex').entries()) buf[i] = b;
        break;
    case 'get': out.push('val=' + show(m, o[attr(o, op.meth)], op.mk, op.mw, op.mt)); break;
    case 'set': o[attr(o, op.meth)] = val(m, op.arg); dump = true; break;
    }
    if (dump) for (const l of op.leaves || []) {
        let x = o;
        for (const [n, i] of l.path) { x = x[attr(x, n)]; if (i >= 0) x = x[i]; }
        out.push(l.label + '=' + show(m, x, l.k, l.w, l.t));
    }
    if (op.kind === 'alias' && dump) {
        for (const p of op.poke || []) for (const [i, b] of Buffer.from(p.v, 'hex').entries()) o[attr(o, p.n)][i] = b;
        out.push('buf=' + hex(buf));
    }
    return out;
}
const lines = fs.readFileSync(process.argv[2], 'utf8').split('\n').filter(Boolean);
const all = [];
for (let i = 0; i < lines.length; i++) {
    all.push('#' + i);
    try { all.push(...await run(JSON.parse(lines[i]))); }
    catch (e) {
        if (e instanceof DriverError) all.push('driver ' + e.message);
        else { if (process.argv[3]) all.push('why ' + e); all.push('exc'); }
    }
}
process.stdout.write(all.join('\n') + '\n');
