// Binary instrumentation of WebAssembly modules produced by the compiler under
// observation.  parse() decodes a module strictly enough to know its structure;
// instrument() inserts calls to monitor imports:
//   mon.tick()                    at every loop header and function entry (logical step counter)
//   mon.enter(fidx), mon.exit(fidx)   around every call to a *defined* function
//   mon.hcall(fidx), mon.hret(fidx)   around every call to an imported (host) function
//   mon.ld(addr, off_size) / mon.st...  before every memory access
export function parse(buf) {
    const b = new Uint8Array(buf);
    let p = 0;
    const u32 = () => { let r = 0, s = 0, x; const start = p; do { if (p - start > 4) throw new Error("u32 leb too long at " + start); x = b[p++]; r |= (x & 0x7f) << s; s += 7; } while (x & 0x80); return r >>> 0; };
    const name = () => { const n = u32(); const s = new TextDecoder().decode(b.subarray(p, p + n)); p += n; return s; };
    if (b[0] !== 0 || b[1] !== 0x61 || b[2] !== 0x73 || b[3] !== 0x6d || b[4] !== 1) throw new Error("bad magic/version");
    p = 8;
    const m = { types: [], imports: [], funcs: [], exports: [], codes: [], globals: 0, data: [], sections: [] };
    while (p < b.length) {
        const id = b[p++]; const size = u32(); const end = p + size; const start = p;
        m.sections.push({ id, start, end });
        if (id === 1) { const n = u32(); for (let i = 0; i < n; i++) { const f = b[p++]; if (f !== 0x60) throw new Error("functype"); const ps = []; let k = u32(); while (k--) ps.push(b[p++]); const rs = []; k = u32(); while (k--) rs.push(b[p++]); m.types.push({ params: ps, results: rs }); } }
        else if (id === 2) { const n = u32(); for (let i = 0; i < n; i++) { const mod = name(); const nm = name(); const kind = b[p++]; const imp = { mod, name: nm, kind }; if (kind === 0) imp.type = u32(); else if (kind === 2) { const lim = b[p++]; imp.min = u32(); if (lim & 1) imp.max = u32(); } else if (kind === 1) { p++; const lim = b[p++]; u32(); if (lim & 1) u32(); } else { p += 2; } m.imports.push(imp); } }
        else if (id === 3) { const n = u32(); for (let i = 0; i < n; i++) m.funcs.push(u32()); }
        else if (id === 7) { const n = u32(); for (let i = 0; i < n; i++) { const nm = name(); const kind = b[p++]; m.exports.push({ name: nm, kind, index: u32() }); } }
        else if (id === 10) { const n = u32(); for (let i = 0; i < n; i++) { const sz = u32(); const st = p; const locals = []; let k = u32(); while (k--) { const c = u32(); locals.push([c, b[p++]]); } m.codes.push({ locals, body: [p, st + sz] }); p = st + sz; } }
        else if (id === 11) { const n = u32(); for (let i = 0; i < n; i++) { const flag = u32(); let off = null; if (flag === 0) { if (b[p++] !== 0x41) throw new Error("data offset expr"); let r = 0, s = 0, x; do { x = b[p++]; r |= (x & 0x7f) << s; s += 7; } while (x & 0x80); if (s < 32 && (x & 0x40)) r |= (~0 << s); off = r; if (b[p++] !== 0x0b) throw new Error("data end"); } const len = u32(); m.data.push({ off, start: p, len }); p += len; } }
        p = end;
    }
    m.nimp = m.imports.filter(i => i.kind === 0).length;
    m.bytes = b;
    return m;
}

const leb = (n) => { const o = []; n >>>= 0; do { let x = n & 0x7f; n >>>= 7; if (n) x |= 0x80; o.push(x); } while (n); return o; };
const sleb = (n) => { const o = []; n |= 0; for (;;) { const x = n & 0x7f; n >>= 7; if ((n === 0 && !(x & 0x40)) || (n === -1 && (x & 0x40))) { o.push(x); return o; } o.push(x | 0x80); } };
const str = (s) => { const e = [...new TextEncoder().encode(s)]; return [...leb(e.length), ...e]; };

const LOADSZ = { 0x28: 4, 0x29: 8, 0x2a: 4, 0x2b: 8, 0x2c: 1, 0x2d: 1, 0x2e: 2, 0x2f: 2, 0x30: 1, 0x31: 1, 0x32: 2, 0x33: 2, 0x34: 4, 0x35: 4 };
const STORESZ = { 0x36: [4, 0x7f], 0x37: [8, 0x7e], 0x38: [4, 0x7d], 0x39: [8, 0x7c], 0x3a: [1, 0x7f], 0x3b: [2, 0x7f], 0x3c: [1, 0x7e], 0x3d: [2, 0x7e], 0x3e: [4, 0x7e] };

export function instrument(m, opts) {
    const b = m.bytes;
    const nt = m.types.length;
    // new types: () -> (), (i32)->(), (i32 i32)->(i32)
    const T0 = nt, T1 = nt + 1, T2 = nt + 2;
    const monImports = [["tick", T0], ["enter", T1], ["exit", T1], ["hcall", T1], ["hret", T1], ["ld", T2], ["st", T2]];
    const K = monImports.length, N = m.nimp;
    const idx = Object.fromEntries(monImports.map(([n], i) => [n, N + i]));
    const mapf = (f) => f < N ? f : f + K;
    const out = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    const section = (id, body) => { out.push(id, ...leb(body.length)); for (const x of body) out.push(x); };
    let nloads = 0, nstores = 0, ncalls = 0, nloops = 0;

    const instrBody = (ci) => {
        const c = m.codes[ci];
        const ty = m.types[m.funcs[ci]];
        let nl = ty.params.length; for (const [cnt] of c.locals) nl += cnt;
        const L = { 0x7f: nl, 0x7e: nl + 1, 0x7d: nl + 2, 0x7c: nl + 3 };
        const o = [...leb(c.locals.length + 4)];
        for (const [cnt, t] of c.locals) o.push(...leb(cnt), t);
        for (const t of [0x7f, 0x7e, 0x7d, 0x7c]) o.push(1, t);
        const call = (f) => { o.push(0x10); for (const x of leb(f)) o.push(x); };
        const iconst = (v) => { o.push(0x41); for (const x of sleb(v)) o.push(x); };
        call(idx.tick);
        let p = c.body[0]; const end = c.body[1];
        const u32 = () => { let r = 0, s = 0, x; do { x = b[p++]; r |= (x & 0x7f) << s; s += 7; } while (x & 0x80); return r >>> 0; };
        const skipleb = () => { while (b[p++] & 0x80); };
        const copy = (from) => { for (let i = from; i < p; i++) o.push(b[i]); };
        while (p < end) {
            const st = p; const op = b[p++];
            if (op === 0x02 || op === 0x03 || op === 0x04) { // block/loop/if
                skipleb(); copy(st);
                if (op === 0x03) { nloops++; call(idx.tick); }
            } else if (op === 0x0c || op === 0x0d) { skipleb(); copy(st); }
            else if (op === 0x0e) { let n = u32(); for (let i = 0; i <= n; i++) skipleb(); copy(st); }
            else if (op === 0x10) {
                const f = u32(); ncalls++;
                const host = f < N;
                iconst(f); call(host ? idx.hcall : idx.enter);
                call(mapf(f));
                iconst(f); call(host ? idx.hret : idx.exit);
            } else if (op === 0x11) { skipleb(); skipleb(); copy(st); }
            else if (op >= 0x20 && op <= 0x26) { skipleb(); copy(st); }
            else if (LOADSZ[op] !== undefined) {
                skipleb(); const off = u32(); nloads++;
                if (opts.mem) { iconst(off * 16 + LOADSZ[op]); call(idx.ld); }
                copy(st);
            } else if (STORESZ[op] !== undefined) {
                skipleb(); const off = u32(); nstores++;
                if (opts.mem) {
                    const [sz, vt] = STORESZ[op];
                    o.push(0x21, ...leb(L[vt]));
                    iconst(off * 16 + sz); call(idx.st);
                    o.push(0x20, ...leb(L[vt]));
                }
                copy(st);
            } else if (op === 0x3f || op === 0x40) { p++; copy(st); }
            else if (op === 0x41 || op === 0x42) { skipleb(); copy(st); }
            else if (op === 0x43) { p += 4; copy(st); }
            else if (op === 0x44) { p += 8; copy(st); }
            else if (op === 0xfc) { const sub = u32(); if (sub <= 7) { } else if (sub === 8 || sub === 10 || sub === 12 || sub === 14) { skipleb(); skipleb(); } else skipleb(); copy(st); }
            else if (op === 0x1c) { let n = u32(); p += n; copy(st); }
            else copy(st);
        }
        return [...leb(o.length), ...o];
    };

    for (const s of m.sections) {
        if (s.id === 1) {
            const body = [...leb(nt + 3)];
            for (const t of m.types) body.push(0x60, ...leb(t.params.length), ...t.params, ...leb(t.results.length), ...t.results);
            body.push(0x60, 0, 0, 0x60, 1, 0x7f, 0, 0x60, 2, 0x7f, 0x7f, 1, 0x7f);
            section(1, body);
        } else if (s.id === 2) {
            const body = [...leb(m.imports.length + K)];
            // original imports copied verbatim (skip the vector length)
            let p = s.start; while (b[p++] & 0x80);
            for (let i = p; i < s.end; i++) body.push(b[i]);
            for (const [n, t] of monImports) body.push(...str("mon"), ...str(n), 0, ...leb(t));
            section(2, body);
        } else if (s.id === 7) {
            const body = [...leb(m.exports.length)];
            for (const e of m.exports) body.push(...str(e.name), e.kind, ...leb(e.kind === 0 ? mapf(e.index) : e.index));
            section(7, body);
        } else if (s.id === 10) {
            const parts = m.codes.map((_, i) => instrBody(i));
            const body = [...leb(parts.length)];
            for (const q of parts) for (const x of q) body.push(x);
            section(10, body);
        } else if (s.id === 8) {
            let p = s.start; let r = 0, sh = 0, x; do { x = b[p++]; r |= (x & 0x7f) << sh; sh += 7; } while (x & 0x80);
            section(8, leb(mapf(r)));
        } else {
            const body = []; for (let i = s.start; i < s.end; i++) body.push(b[i]);
            section(s.id, body);
        }
    }
    return { bytes: new Uint8Array(out), stats: { nloads, nstores, ncalls, nloops } };
}
